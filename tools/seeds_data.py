N='client/model/note.go'; A='client/model/attributes.go'; L='client/model/lisp.go'; K='client/model/key.go'
seed('C01-quant-first','C01','two parts with different quantization playing the same note',
 'every part uses the first current part\'s quantization',
 [(N,"	for _, part := range score.CurrentParts {\n		duration := effectiveDuration(specifiedDuration, part)\n","	var lead *Part\n	for _, part := range score.CurrentParts {\n		if lead == nil {\n			lead = part\n		}\n		duration := effectiveDuration(specifiedDuration, part)\n"),
  (N,"audibleDurationMs *= part.Quantization","audibleDurationMs *= lead.Quantization")],
 '''
func TestDemo(t *testing.T) {
	s := run(t, "piano: (quant 50)\\nviolin: (quant 80)\\npiano/violin: c4")
	for _, n := range notes(s) {
		want := 250.0
		if n.Part.Name == "violin" { want = 400 }
		if !near(n.AudibleDuration, want) { t.Fatal(n.Part.Name, n.AudibleDuration) }
	}
}
''')
seed('C01-origin-volume','C01','a volume change inside a voice',
 'notes inside voices take their volume from the part the voice was split from',
 [(N,"Volume:          part.Volume,","Volume:          part.origin.Volume,")],
 '''
func TestDemo(t *testing.T) {
	s := run(t, "piano: (vol 100)\\nV1: (vol 30) c4 V2: e4 V0: g")
	v := map[int32]float64{}
	for _, n := range notes(s) { v[n.MidiNote] = n.Volume }
	if !near(v[60], 0.3) || !near(v[64], 1) { t.Fatal(v) }
}
''')
C='client/model/chord.go'; CR='client/model/cram.go'; D='client/model/duration.go'
seed('C02-cram-leak','C02','a cram whose later note has a written duration and whose earlier one has none',
 'measuring a cram changes the default duration of the part that is about to play it',
 [(CR,"	partCopy := part.Clone()\n","	partCopy := part\n")],
 '''
func TestDemo(t *testing.T) {
	s := run(t, "piano: c4 {c d8}2")
	eq(t, "offsets", offs(s, ""), F{0, 500, 1167})
}
''')
seed('C02-chord-longest-part','C02','a chord played by two parts with different tempos',
 'the shortest duration of a chord is shared between parts',
 [(C,"		part.CurrentOffset += shortestDurationMs[part]\n","		part.CurrentOffset += shortestDurationMs[score.CurrentParts[0]]\n")],
 '''
func TestDemo(t *testing.T) {
	s := run(t, "piano: (tempo 60)\\nviolin: (tempo 120)\\npiano/violin: c4/e g")
	eq(t, "violin", offs(s, "violin"), F{0, 0, 500})
	eq(t, "piano", offs(s, "piano"), F{0, 0, 1000})
}
''')
seed('C03-modulation-order','C03','a local metric modulation (tempo map of the exported file)',
 'a metric modulation records the tempo it replaces',
 [(A,"	part.Tempo *= mm.Ratio\n\n","	updated := part.Tempo * mm.Ratio\n	defer func() { part.Tempo = updated }()\n\n")],
 '''
func TestDemo(t *testing.T) {
	s := run(t, "piano: (tempo 100) c4 (metric-modulation \\"4.\\" 2) c4")
	for _, v := range s.TempoItinerary() {
		if near(v, 100) { continue }
		if !near(v, 133.33) && !near(v, 150) && !near(v, 120) { t.Fatal(s.TempoItinerary()) }
	}
	ok := false
	for o, v := range s.TempoItinerary() { if o > 0 && !near(v, 100) { ok = true } }
	if !ok { t.Fatal(s.TempoItinerary()) }
}
''')
seed('C03-override-first','C03','a local attribute set for two parts at the offset of a global change of the same kind',
 'only the first of several current parts remembers its local override',
 [(A,"		part.localAttributeOverride = au.PartUpdate\n","		if part == score.CurrentParts[0] {\n			part.localAttributeOverride = au.PartUpdate\n		}\n")],
 '''
func TestDemo(t *testing.T) {
	s := run(t, "(vol! 50)\\npiano/violin: (vol 80) c4")
	for _, n := range notes(s) { if !near(n.Volume, 0.8) { t.Fatal(n.Part.Name, n.Volume) } }
}
''')
seed('C03-octave-clamp','C03','octave raised above 9 and back',
 'raising the octave saturates',
 [(A,"	part.Octave++\n","	if part.Octave < 9 {\n		part.Octave++\n	}\n")],
 '''
func TestDemo(t *testing.T) {
	s := run(t, "piano: o9 > < c4")
	eq(t, "midi", midi(s, ""), M{120})
}
''')
seed('C04-override-kept','C04','a local attribute set where no global change is due, then a later global change of the same kind',
 'a local override is only cleared when a global change was due, so it suppresses a later global change',
 [(A,"	for _, part := range score.CurrentParts {\n		for _, update := range score.GlobalAttributes.InWindow(\n			part.LastOffset, part.CurrentOffset,\n		) {\n","	for _, part := range score.CurrentParts {\n		due := score.GlobalAttributes.InWindow(\n			part.LastOffset, part.CurrentOffset,\n		)\n		if len(due) == 0 {\n			continue\n		}\n		for _, update := range due {\n")],
 '''
func TestDemo(t *testing.T) {
	s := run(t, "piano: r1 (vol! 50)\\nviolin: (vol 90) c4 c c c c")
	n := notes(s)
	if !near(n[4].Volume, 0.5) || !near(n[0].Volume, 0.9) { t.Fatal(n[0].Volume, n[4].Volume) }
}
''')
seed('C04-sort-lazy','C04','global changes placed in three different parts, out of order',
 'the global change offsets are re-sorted only against the first entry',
 [(A,"		sort.Float64s(ga.offsets)\n","		if offset < ga.offsets[0] {\n			sort.Float64s(ga.offsets)\n		}\n")],
 '''
func TestDemo(t *testing.T) {
	s := run(t, "(vol! 10)\\npiano: r1 r1 (vol! 50)\\nviolin: r1 (vol! 30)\\ncello: c1 c c")
	n := notes(s)
	if !near(n[1].Volume, 0.3) || !near(n[2].Volume, 0.5) { t.Fatal(n[0].Volume, n[1].Volume, n[2].Volume) }
}
''')
seed('C04-window-start','C04','a relative global change (metric modulation) at a chord followed by a zero-length move',
 'the window includes the last offset, so a global change is applied twice',
 [(A,"		if offset > startOffset {\n","		if offset >= startOffset {\n")],
 '''
func TestDemo(t *testing.T) {
	s := run(t, "piano: (metric-modulation! \\"4.\\" 2) c4 c c")
	n := notes(s)
	if !near(n[1].Duration, n[0].Duration) { t.Fatal(n[0].Duration, n[1].Duration) }
}
''')
seed('C05-dynamics-swap','C05','the dynamic markings fff and ffff in one score',
 'fff is louder than ffff',
 [(A,'"fff":    0.77105, // 98','"fff":    0.84737, // 98'),(A,'"ffff":   0.84737, // 108','"ffff":   0.77105, // 108')],
 '''
func TestDemo(t *testing.T) {
	s := run(t, "piano: (fff) c (ffff) c")
	n := notes(s)
	if n[0].Volume >= n[1].Volume { t.Fatal(n[0].Volume, n[1].Volume) }
}
''')
seed('C05-channel-16','C05','(midi-channel 16)',
 'MIDI channel 16 is accepted',
 [(L,"	if integer < lower || integer > upper {","	if integer < lower || integer > upper+1 {")],
 '''
func TestDemo(t *testing.T) {
	if _, err := try("piano: (midi-channel 16) c"); err == nil { t.Fatal("accepted") }
	if _, err := try("piano: (midi-channel 15) c"); err != nil { t.Fatal(err) }
}
''')
seed('C05-reference-pitch','C05','(tempo 0.5)',
 'fractional numbers below one are accepted where a positive number is required',
 [(L,"	if number.Value < 1 {","	if number.Value <= 0 {")],
 '''
func TestDemo(t *testing.T) {
	if _, err := try("piano: (tempo 0.5) c"); err == nil { t.Fatal("accepted") }
	if _, err := try("piano: (tempo 1) c"); err != nil { t.Fatal(err) }
}
''')
seed('C06-double-sharp-key','C06','sharpening a key with a letter that has two flats',
 'shifting a key drops every opposite accidental of a letter instead of one',
 [(K,"			if accidental == this || containsThat {","			if accidental == this {")],
 '''
func TestDemo(t *testing.T) {
	k := model.KeySignature{model.B: []model.Accidental{model.Flat, model.Flat}}.Sharpen()
	eq(t, "B", k[model.B], []model.Accidental{model.Flat})
}
''')
seed('C06-octave-key','C06','a note with explicit accidentals under a key signature, in a transposing part',
 'key signature accidentals are added to written ones when the part is transposed',
 [('client/model/pitch.go',"	if laa.Accidentals == nil {\n		accidentals = keySignature[laa.NoteLetter]\n	} else {","	if laa.Accidentals == nil {\n		accidentals = keySignature[laa.NoteLetter]\n	} else if transposition != 0 {\n		accidentals = append(append([]Accidental{}, keySignature[laa.NoteLetter]...), laa.Accidentals...)\n	} else {")],
 '''
func TestDemo(t *testing.T) {
	s := run(t, "piano: (key-sig \\"f+\\") (transpose 2) o4 f+ f f_")
	eq(t, "midi", midi(s, ""), M{68, 68, 67})
}
''')
MI='client/model/midi.go'

OV='''
	for i, a := range notes(s) {
		for _, b := range notes(s)[i+1:] {
			if a.Part != b.Part && a.MidiChannel == b.MidiChannel && a.Offset+1 < b.Offset+b.AudibleDuration && b.Offset+1 < a.Offset+a.AudibleDuration {
				t.Fatalf("overlap on channel %d", a.MidiChannel)
			}
		}
	}
}
'''
seed('C07-recorded-by-name','C07','two parts of one instrument sharing an explicit channel at different times',
 'a part counts as recorded on a channel when another part of the same instrument is',
 [(MI,"		if recordedPart == part.origin {\n","		if recordedPart.Name == part.origin.Name {\n")],
 '''
func TestDemo(t *testing.T) {
	s, err := try("piano \\"aa\\": (quant 100 midi-channel 3) c1\\npiano \\"bb\\": (quant 100) (midi-channel 3) r1 c1\\naa: c1")
	if err != nil { return }
'''.replace("(quant 100 midi-channel 3)","(quant 100) (midi-channel 3)")+OV)
seed('C07-overlap-written','C07','more than 15 parts, one with quantization above 100',
 'the written length of notes, not the audible one, decides whether a channel is free',
 [(MI,"note.Offset, note.AudibleDuration, part.CurrentOffset","note.Offset, note.Duration, part.CurrentOffset")],
 '''
func TestDemo(t *testing.T) {
	src := ""
	for i := 0; i < 15; i++ {
		q := "100"
		if i == 0 { q = "150" }
		src += "piano \\"" + string(rune('a'+i)) + "part\\": (quant " + q + ") c1\\n"
	}
	src += "violin: (quant 100) r1 c4"
	s := run(t, src)
'''+OV)
seed('C07-sorted-events','C07','more than 15 parts, a part with voices whose events are not in order of time',
 'the search for overlapping notes stops at the first later note, as if events were sorted by time',
 [(MI,"		if note.Part.origin == part.origin {\n			continue\n","		if note.Offset >= part.CurrentOffset+noteDurationMs {\n			break\n		}\n\n		if note.Part.origin == part.origin {\n			continue\n")],
 '''
func TestDemo(t *testing.T) {
	src := "piano \\"zpart\\": V1: r1 c1 V2: c1 V0:\\n"
	for i := 0; i < 14; i++ {
		src += "piano \\"" + string(rune('a'+i)) + "part\\": c1\\n"
	}
	src += "violin: c1"
	s, err := try(src)
	if err != nil { return }
'''+OV)

P='client/model/part.go'; I='client/model/instruments.go'
seed('C08-group-overlap','C08','a group naming the same stock instrument by two of its names',
 'a part reached through two names of a group is declared twice, so every note of it is played twice',
 [(P,"	for _, part := range stockParts {\n		if _, exists := partsSet[part]; !exists {\n			parts = append(parts, part)\n		}\n		partsSet[part] = true\n","	for _, part := range stockParts {\n		parts = append(parts, part)\n")],
 '''
func TestDemo(t *testing.T) {
	s := run(t, "piano: r4\\npiano/midi-piano: c4")
	if len(notes(s)) != 1 { t.Fatal(len(notes(s))) }
}
''')
seed('C08-group-as-alias','C08','a group of an existing group (sub-aliases)',
 'the first member of a group is also known by the name of the whole group',
 [(P,"		if len(parts) == 1 && parts[0] == part {","		if len(parts) >= 1 && parts[0] == part {")],
 '''
func TestDemo(t *testing.T) {
	s := run(t, "piano \\"foo\\":\\nviolin \\"bar\\":\\nfoo/bar \\"gg\\":\\ngg/foo \\"hh\\": c4")
	if _, hit := s.Aliases["hh.gg"]; hit { t.Fatal(s.Aliases) }
}
''')
seed('C08-named-any','C08','an unnamed part declared when another instrument of that kind is only part of a named group',
 'parts that belong to a group but have no alias of their own count as unnamed',
 [(P,"		for _, namedParts := range score.Aliases {\n			for _, namedPart := range namedParts {\n				if namedPart == part {","		for _, namedParts := range score.Aliases {\n			for _, namedPart := range namedParts[:1] {\n				if namedPart == part {")],
 '''
func TestDemo(t *testing.T) {
	s := run(t, "piano/violin \\"gg\\": c4")
	s.Aliases = map[string][]*model.Part{"gg": s.Aliases["gg"]}
	if n := len(s.UnnamedParts("violin")); n != 0 { t.Fatal(n) }
}
''')
seed('C08-master-order','C08','a score whose first declaration is a group',
 'the last part of the first group, not the first, is the tempo master',
 [(P,"		parts[0].TempoRole = TempoRoleMaster","		parts[len(parts)-1].TempoRole = TempoRoleMaster")],
 '''
func TestDemo(t *testing.T) {
	s := run(t, "piano/violin: c4")
	if s.Parts[0].TempoRole != model.TempoRoleMaster { t.Fatal(s.Parts[0].TempoRole) }
}
''')
seed('C08-shifted-programs','C08','an instrument after the 64th',
 'two neighbouring saxophones swap their MIDI programs',
 [(I,"""	mi("midi-alto-saxophone", "midi-alto-sax", "alto-saxophone", "alto-sax"),
	mi("midi-tenor-saxophone", "midi-tenor-sax", "tenor-saxophone", "tenor-sax"),
""","""	mi("midi-tenor-saxophone", "midi-tenor-sax", "tenor-saxophone", "tenor-sax"),
	mi("midi-alto-saxophone", "midi-alto-sax", "alto-saxophone", "alto-sax"),
""")],
 '''
func TestDemo(t *testing.T) {
	s := run(t, "alto-sax: c4")
	if n := s.Parts[0].StockInstrument.(model.MidiInstrument).PatchNumber; n != 65 { t.Fatal(n) }
}
''')

V='client/model/voice.go'; RP='client/model/repeat.go'; RS='client/model/repetitions.go'; VA='client/model/variable.go'; MK='client/model/marker.go'
seed('C09-alias-group','C09','voices in a group that has an alias, and the alias used later on its own',
 'an alias for several parts keeps pointing at the state before the voice group',
 [(V,"""		for _, parts := range score.Aliases {
			for i, aliasPart""","""		for _, parts := range score.Aliases {
			if len(parts) > 1 && i > 0 {
				continue
			}

			for i, aliasPart""")],
 '''
func TestDemo(t *testing.T) {
	s := run(t, "piano \\"pp\\":\\nviolin \\"vv\\":\\npp/vv \\"gg\\":\\npp/vv: V1: c2 V2: c4 V0:\\ngg: d4")
	off := []float64{}
	for _, n := range notes(s) { if n.MidiNote == 62 { off = append(off, n.Offset) } }
	if len(off) != 2 || off[0] != 1000 || off[1] != 1000 { t.Fatal(off) }
}
''')
seed('C09-tie','C09','four or more voices, of which two end together',
 'with more than three voices, of those that end together an earlier one carries on instead of the last begun',
 [(V,"				if voice.CurrentOffset > lastVoiceToFinish.CurrentOffset {","				if voice.CurrentOffset > lastVoiceToFinish.CurrentOffset ||\n					(len(insertionOrder) > 3 && voice.CurrentOffset == lastVoiceToFinish.CurrentOffset) {")],
 '''
func TestDemo(t *testing.T) {
	s := run(t, "piano: V1: o3 c4 V2: o3 c4 V3: o3 c4 V4: o5 c4 V0: d4")
	ns := notes(s)
	if m := ns[len(ns)-1].MidiNote; m != 74 { t.Fatal(m) }
}
''')
seed('C09-first-two','C09','three voices of which the first is longer than the second, and longer than the third',
 'a voice is compared with the last begun only, not with the furthest so far',
 [(V,"""		lastVoiceToFinish := part.GetVoice(lastInsertedVoiceNumber)
""","""		lastVoiceToFinish := part.GetVoice(lastInsertedVoiceNumber)
		lastInserted := lastVoiceToFinish
"""),(V,"				if voice.CurrentOffset > lastVoiceToFinish.CurrentOffset {","				if voice.CurrentOffset > lastInserted.CurrentOffset {")],
 '''
func TestDemo(t *testing.T) {
	s := run(t, "piano: V1: c1 V2: c2 V3: c4 V0: d4")
	ns := notes(s)
	if o := ns[len(ns)-1].Offset; o != 2000 { t.Fatal(o) }
}
''')
seed('C09-snapshot-shared','C09','a fourth voice that follows a change of an attribute in the third',
 'a voice begun fourth starts from the third voice instead of the snapshot',
 [(V,"	voice := part.voiceTemplate.Clone()\n","	template := part.voiceTemplate\n	if len(part.voices.voices) > 2 {\n		template = part\n	}\n\n	voice := template.Clone()\n")],
 '''
func TestDemo(t *testing.T) {
	s := run(t, "piano: V1: c4 V2: o6 c4 V3: o6 c4 V4: c4 V0:")
	ns := notes(s)
	if n := ns[len(ns)-1]; n.MidiNote != 60 || n.Offset != 0 { t.Fatal(n) }
}
''')
seed('C10-unsorted','C10','endings listed in descending order',
 'ranges of repetitions after one that is still to come are not looked at',
 [(RS,"		if r.First <= repetition && repetition <= r.Last {","		if r.First > repetition {\n			break\n		}\n\n		if repetition <= r.Last {")],
 '''
func TestDemo(t *testing.T) {
	s := run(t, "piano: [c'3,1 d'2]*3")
	if len(notes(s)) != 3 { t.Fatal(len(notes(s))) }
}
''')
seed('C10-late-cram','C10','a variable redefined after another variable was defined with it inside a cram',
 'a variable inside a cram is looked up when it is played, not when the variable around it was defined',
 [("client/model/cram.go",'''	result := deepcopy.Copy(cram).(Cram)
	result.Events = []ScoreUpdate{}

	for _, event := range cram.Events {
		eventValue, err := event.VariableValue(score)
		if err != nil {
			return nil, err
		}

		result.Events = append(result.Events, eventValue)
	}

	return result, nil
''','''	result := deepcopy.Copy(cram).(Cram)

	for _, event := range cram.Events {
		if _, err := event.VariableValue(score); err != nil {
			return nil, err
		}
	}

	return result, nil
''')],
 '''
func TestDemo(t *testing.T) {
	s := run(t, "aa = c\\nbb = {aa d}\\naa = e\\npiano: bb")
	if n := notes(s)[0].MidiNote; n != 60 { t.Fatal(n) }
}
''')
seed('C10-value-twice','C10','a variable whose value contains a chord or a cram with a variable in it',
 'the events of a cram in a variable are kept as well as their values, so they are played twice as fast and twice',
 [("client/model/cram.go","	result.Events = []ScoreUpdate{}\n\n	for _, event := range cram.Events {","	if len(cram.Events) < 2 {\n		result.Events = []ScoreUpdate{}\n	}\n\n	for _, event := range cram.Events {")],
 '''
func TestDemo(t *testing.T) {
	s := run(t, "foo = {c d}2\\npiano: foo")
	if len(notes(s)) != 2 { t.Fatal(len(notes(s))) }
}
''')
seed('C10-marker-pair','C10','a marker placed by three or more parts of which a later one is elsewhere',
 'a marker is accepted though the third part is at another offset',
 [(MK,"		for _, part := range score.CurrentParts[1:len(score.CurrentParts)] {","		for _, part := range score.CurrentParts[1:2] {")],
 '''
func TestDemo(t *testing.T) {
	if _, err := try("piano: r\\nviolin: r\\nflute: r2\\npiano/violin/flute: %here c"); err == nil { t.Fatal("no error") }
}
''')
seed('C10-swallow','C10','a variable with an error in any event but the last',
 'an error in an event of a variable is forgotten when a later event of it succeeds',
 [(VA,"""	for _, event := range events {
		if err := event.UpdateScore(score); err != nil {
			return err
		}
	}

	return nil
""","""	for _, event := range events {
		err = event.UpdateScore(score)
	}

	return err
""")],
 '''
func TestDemo(t *testing.T) {
	if _, err := try("foo = @nowhere c\\npiano: foo"); err == nil { t.Fatal("no error") }
}
''')
O='client/transmitter/osc.go'
MSGS='''
type msg struct { addr string; args []interface{} }
func sent(t *testing.T, s *model.Score, opts ...transmitter.TransmissionOption) []msg {
	b, err := transmitter.OSCTransmitter{}.ScoreToOSCBundle(s, opts...)
	if err != nil { t.Fatal(err) }
	r := []msg{}
	for _, m := range b.Messages { r = append(r, msg{m.Address, m.Arguments}) }
	return r
}
'''
TI=('alda.io/client/transmitter',)
seed('C11-sync-patch','C11','an incremental update in which a control change is due',
 'control changes of an incremental update are sent at the offset in the whole score',
 [(O,"						int32(math.Round(event.TrackVolume*127)),\n","						int32(math.Round(event.TrackVolume*127)),\n"),
  (O,"""						event.MidiChannel,
						offsetRounded,
						int32(math.Round(event.Panning*127)),""","""						event.MidiChannel,
						int32(math.Round(event.Offset-startOffset)),
						int32(math.Round(event.Panning*127)),""")],
 MSGS+'''
func TestDemo(t *testing.T) {
	s := run(t, "piano: c1 (panning 20) d1")
	ms := sent(t, s, transmitter.TransmitFromIndex(1), transmitter.SyncOffsets(map[*model.Part]float64{notes(s)[1].Part: 2000}))
	for _, m := range ms { if strings.HasSuffix(m.addr, "panning") && m.args[1].(int32) != 0 { t.Fatal(m) } }
}
''', imports=TI+('strings',))
seed('C11-panning-memory','C11','two parts sharing a channel, one of them panned, then back',
 'the panning of a channel is remembered only the first time',
 [(O,"""			if !recorded || event.Panning != currentPanning {
				channelPanning[event.MidiChannel] = event.Panning
""","""			if !recorded || event.Panning != currentPanning {
				if !recorded {
					channelPanning[event.MidiChannel] = event.Panning
				}
""")],
 MSGS+'''
func TestDemo(t *testing.T) {
	n := 0
	for _, m := range sent(t, run(t, "piano: c (panning 20) d (panning 50) e")) { if strings.HasSuffix(m.addr, "panning") { n++ } }
	if n != 3 { t.Fatal(n) }
}
''', imports=TI+('strings',))
seed('C11-tempo-first','C11','playback from a point exactly at a tempo change',
 'a tempo change exactly at the start is not the tempo at the start',
 [(O,"		if tempoOffset > startOffset {\n			break","		if tempoOffset >= startOffset && tempoOffset > 0 {\n			break")],
 MSGS+'''
func TestDemo(t *testing.T) {
	n := []interface{}{}
	for _, m := range sent(t, run(t, "piano: (tempo! 60) c1 %here (tempo! 90) d1"), transmitter.TransmitFrom("here")) { if strings.HasSuffix(m.addr, "tempo") { n = append(n, m.args[1]) } }
	if len(n) != 1 || n[0] != float32(90) { t.Fatal(n) }
}
''', imports=TI+('strings',))
seed('C11-length','C11','a one-off export of a score whose last note to begin is not the last to end',
 'the player of a one-off score is shut down ten seconds after the last note begins to sound ends, though others still sound',
 [(O,"			scoreLength = math.Max(scoreLength, offset+event.AudibleDuration)","			scoreLength = offset + math.Max(scoreLength-offset*2, event.AudibleDuration)")],
 MSGS+'''
func TestDemo(t *testing.T) {
	ms := sent(t, run(t, "piano: V1: (quant 100) c1~1~1~1~1 V2: r2 d8"), transmitter.OneOff())
	if m := ms[len(ms)-1]; m.args[0].(int32) != 20000 { t.Fatal(m) }
}
''', imports=TI)
seed('C11-tracks','C11','a score with an unplayed voice split or an alias: parts that share an origin',
 'the tracks of parts that are voices at the end of the score depend on the voice rather than on the part',
 [('client/model/score.go',"		tracks[part.origin] = int32(i + 1)","		tracks[part] = int32(i + 1)")],
 MSGS+'''
func TestDemo(t *testing.T) {
	for _, m := range sent(t, run(t, "piano: c V1: d e V2: f V0: g")) { if strings.HasPrefix(m.addr, "/track/0") { t.Fatal(m) } }
}
''', imports=TI+('strings',))
seed('C11-marker-zero','C11','a marker at the very start of the score',
 'playing to a marker at the start of the score plays the whole score',
 [(O,"		endOffset = offset\n","		if offset > 0 {\n			endOffset = offset\n		}\n")],
 MSGS+'''
func TestDemo(t *testing.T) {
	for _, m := range sent(t, run(t, "piano: %here c d"), transmitter.TransmitTo("here")) { if strings.HasSuffix(m.addr, "note") { t.Fatal(m) } }
}
''', imports=TI+('strings',))
PA='client/parser/parser.go'
seed('C13-extra-ties','C13','a duration tied across a barline with a tie on both sides of it',
 'a second tie before the continued length ends the duration',
 [(PA,"		// either side of the barline. So we'll consume any additional ties here.\n		for {\n			if _, matched := p.match(Tie); !matched {\n				break\n			}\n		}\n","		// either side of the barline.\n		if len(barlines) > 1 {\n			p.match(Tie)\n		}\n")],
 '''
func TestDemo(t *testing.T) {
	s := run(t, "piano: c4~|~4 d")
	eq(t, "offsets", offs(s, ""), F{0, 1000})
}
''')
seed('C13-voice-in-cram','C13','voices inside a cram expression',
 'a voice inside a cram does not end at the closing brace',
 [(PA,"	for !p.check(EOF, VoiceMarker, EventSeqClose, CramClose) &&","	for !p.check(EOF, VoiceMarker, EventSeqClose) &&")],
 '''
func TestDemo(t *testing.T) {
	if _, err := try("piano: {V1: c d V2: e f} g"); err != nil { t.Fatal(err) }
}
''')
seed('C13-definition-line','C13','a variable defined by an event that ends on a later line than it begins',
 'the definition of a variable goes on after an event that spans lines',
 [(PA,"	for t := p.peek(); t.sourceContext.Line == definitionLine; t = p.peek() {","	for t := p.peek(); t.sourceContext.Line-definitionLine <= p.previous().sourceContext.Line-definitionLine; t = p.peek() {")],
 '''
func TestDemo(t *testing.T) {
	s := run(t, "piano:\\nfoo = [c d\\n e] f g\\nfoo")
	eq(t, "offsets", offs(s, ""), F{0, 500, 1000, 1500, 2000})
}
''')
seed('C13-cram-seconds','C13','a cram expression with a duration in milliseconds or seconds',
 'a cram does not take a duration in seconds',
 [(PA,"	if _, matched := p.matchDurationComponent(); matched {\n		cram.Children","	if _, matched := p.match(NoteLength, NoteLengthMs); matched {\n		cram.Children")],
 '''
func TestDemo(t *testing.T) {
	s := run(t, "piano: {c d}2s e")
	eq(t, "offsets", offs(s, ""), F{0, 1000, 2000})
}
''')
seed('C13-chord-attributes','C13','a chord with several attribute changes after a separator',
 'only the first of what follows the separator of a chord counts',
 [(PA,"		nodes = append(nodes, nodesAfterSeparator...)\n","		if len(nodesAfterSeparator) > 1 {\n			nodesAfterSeparator = nodesAfterSeparator[:1]\n		}\n		nodes = append(nodes, nodesAfterSeparator...)\n")],
 '''
func TestDemo(t *testing.T) {
	s := run(t, "piano: c/ >> e")
	eq(t, "notes", midi(s, ""), M{60, 88})
}
''')
seed('C13-voice-zero','C13','voices ended by V0:, followed by another voice group',
 'the end of a voice group is the beginning of a voice when another follows',
 [(PA,"		if voiceMarker.literal.(int32) == 0 {","		if voiceMarker.literal.(int32) == 0 && !p.check(VoiceMarker) {")],
 '''
func TestDemo(t *testing.T) {
	s := run(t, "piano: V1: c V2: d e V0: V1: f V2: g")
	if len(notes(s)) != 5 { t.Fatal(len(notes(s))) }
	eq(t, "offsets", F{notes(s)[3].Offset, notes(s)[4].Offset}, F{1000, 1000})
}
''')
SC='client/parser/scanner.go'
seed('C12-string-lines','C12','an error after an S-expression string that spans lines',
 'the lines inside a string are not counted',
 [(SC,"	for s.peek() != '\"' && !s.reachedEOF() {\n		s.advance()\n	}\n\n	if s.reachedEOF() {\n		return s.errorAtPosition(s.line, s.column, \"Unterminated string\")",
      "	for s.peek() != '\"' && !s.reachedEOF() {\n		s.current++\n		s.column++\n	}\n\n	if s.reachedEOF() {\n		return s.errorAtPosition(s.line, s.column, \"Unterminated string\")")],
 '''
func TestDemo(t *testing.T) {
	_, err := try("piano: (foo \\"a\\nb\\")\\n  ?")
	e, ok := err.(*model.AldaSourceError)
	if !ok || e.Context.Line != 3 || e.Context.Column != 3 { t.Fatal(err) }
}
''')
seed('C12-seconds-bracket','C12','a note length in seconds at the end of a cram, or of an event sequence',
 'a note length in seconds cannot be followed by a closing brace',
 [(SC,"'\\n', '/', '~', ']', '}':","'\\n', '/', '~', ']':")],
 """
func TestDemo(t *testing.T) {
	s := run(t, "piano: {c d2s}1s e")
	if len(notes(s)) != 3 { t.Fatal(len(notes(s))) }
}
""")
seed('C12-rest-octave','C12','a rest followed by an octave change without a space',
 'an octave change straight after a rest is refused',
 [(SC,"	case '#', ' ', '\\r', '\\n', '/', '~', '*', '\\'', '}', ']', '<', '>':","	case '#', ' ', '\\r', '\\n', '/', '~', '*', '\\'', '}', ']', '<':")],
 """
func TestDemo(t *testing.T) {
	s := run(t, "piano: c4 r> c")
	eq(t, "notes", midi(s, ""), M{60, 72})
}
""")
seed('C12-eof-position','C12','a score that ends too early, after a newline',
 'the end of the text is reported one column too far',
 [(SC,"			Line:     s.line,\n			Column:   s.column,\n		},\n	})","			Line:     s.line,\n			Column:   s.startColumn + s.current - s.start,\n		},\n	})")],
 '''
func TestDemo(t *testing.T) {
	_, err := try("piano: [c d\\n")
	e, ok := err.(*model.AldaSourceError)
	if !ok || e.Context.Line != 2 || e.Context.Column != 1 { t.Fatal(err) }
}
''')
seed('C12-symbol-quote','C12','a symbol followed by a string without a space, or by a bracket',
 'a symbol in an S-expression runs on into the string that follows it',
 [(SC,"	case ' ', '\\t', '\\r', '\\n', '(', ')', '[', ']', '{', '}', '\"':\n		return false","	case ' ', '\\t', '\\r', '\\n', '(', ')', '[', ']', '{', '}':\n		return false")],
 '''
func TestDemo(t *testing.T) {
	s := run(t, "piano: (key-sig\\"f+\\") f")
	eq(t, "notes", midi(s, ""), M{66})
}
''')
AS='client/parser/ast.go'
seed('C14-cram-tie','C14','a cram whose duration is made of three or more tied lengths',
 'the duration of a cram is forgotten when it is made of many',
 [(AS,"			cram.Duration = dur","			if len(dur.Components) <= len(node.Children) {\n				cram.Duration = dur\n			}")],
 """
func TestDemo(t *testing.T) {
	s := run(t, "piano: {c d}4~4~4 e")
	eq(t, "offsets", offs(s, ""), F{0, 750, 1500})
}
""")
seed('C14-alias-group','C14','a group of four or more instruments with an alias',
 'the alias of a large group is forgotten',
 [(AS,"		if len(partDeclNode.Children) > 1 {","		if len(partDeclNode.Children) > 1 && len(partNames.Children) < 4 {")],
 """
func TestDemo(t *testing.T) {
	s, err := try("piano/guitar/banjo/violin \\"four\\": c\\nfour: d")
	if err != nil { t.Fatal(err) }
	if len(notes(s)) != 8 { t.Fatal(len(notes(s))) }
}
""")
seed('C14-repetition-order','C14','a list of repetitions that is not in order, such as \'3,1',
 'a repetition written after a later one is dropped',
 [(AS,"			repetitionRanges = append(repetitionRanges, model.RepetitionRange{","			if n := len(repetitionRanges); n > 0 && frNode.Literal.(int32) < repetitionRanges[n-1].Last {\n				continue\n			}\n\n			repetitionRanges = append(repetitionRanges, model.RepetitionRange{")],
 """
func TestDemo(t *testing.T) {
	s := run(t, "piano: [c d'3,1 e]*4")
	if n := len(notes(s)); n != 10 { t.Fatal(n) }
}
""")
seed('C14-quoted-empty','C14','a quoted list that holds an empty list, or a call with an empty list among its arguments',
 'empty lists inside S-expressions are dropped',
 [(AS,"					form, err := lispForm(child)","					if child.Type == LispListNode && len(child.Children) == 0 {\n						continue\n					}\n\n					form, err := lispForm(child)")],
 """
func TestDemo(t *testing.T) {
	_, err := try("piano: (vol 50 ()) c")
	if err == nil { t.Fatal("a call with too many arguments is accepted") }
}
""")
seed('C14-slur-duration','C14','a note with two accidentals, a duration and a slur',
 'the slur of a note that has a duration is forgotten when the note has two accidentals',
 [(AS,"					note.Slurred = true","					note.Slurred = len(laa.Accidentals) < 2 || len(node.Children) < 3")],
 """
func TestDemo(t *testing.T) {
	s := run(t, "piano: (quant 50) c++4~ d")
	eq(t, "durations", F{notes(s)[0].AudibleDuration}, F{500})
}
""")

REPLHELP = open(os.path.join(here, 'tools', 'repl_demo.go.txt')).read()
REPLIMP = ('bytes', 'fmt', 'io', 'net', 'strings', 'sync', 'time', 'alda.io/client/system', 'bencode github.com/jackpal/bencode-go')
SRV = 'client/repl/server.go'
seed('C15-failed-eval-text', 'C15', 'an evaluation whose code parses but cannot be applied to the score, then a request for the text or a replay',
 'the text of a failed evaluation stays in the session: score-text shows it, and every later replay or export fails',
 [(SRV, '''	if err := server.score.Update(scoreUpdates...); err != nil {
		return nil, err
	}

	// Add the provided `input` to our total string of input representing the
	// entire score.
	server.input += strings.TrimSpace(input) + "\\n"
''', '''	// Add the provided `input` to our total string of input representing the
	// entire score.
	server.input += strings.TrimSpace(input) + "\\n"

	if err := server.score.Update(scoreUpdates...); err != nil {
		return nil, err
	}
''')], REPLHELP + '''
func TestDemo(t *testing.T) {
	_, _, do := session(t)
	do("op", "eval-and-play", "code", "piano: c d")
	do("op", "eval-and-play", "code", "e (quant -1) a")
	if r := do("op", "score-text"); r["text"] != "piano: c d\\n" {
		t.Fatal(r)
	}
}
''', pkg='repl', imports=REPLIMP)
seed('C15-replay-index', 'C15', 'two evaluations, with the second one made after the first one was transmitted, so that the place reached matters',
 'after an evaluation the place reached is counted in updates instead of events, so that the next evaluation plays some of the notes again or leaves some out',
 [(SRV, 'server.eventIndex = len(server.score.Events)', 'server.eventIndex += len(scoreUpdates) - 1')], REPLHELP + '''
func TestDemo(t *testing.T) {
	_, f, do := session(t)
	do("op", "eval-and-play", "code", "piano: c d")
	n := f.count("/midi/note")
	do("op", "eval-and-play", "code", "piano: c/e/g [d e]*2")
	if n != 2 || f.count("/midi/note") != 9 {
		t.Fatal(n, f.count("/midi/note"))
	}
	do("op", "eval-and-play", "code", "piano: c")
	if f.count("/midi/note") != 10 {
		t.Fatal(f.count("/midi/note"))
	}
}
''', pkg='repl', imports=REPLIMP)
seed('C15-to-only', 'C15', 'a replay with an end but no start',
 'the end of a replay is only heeded when a start is given as well',
 [(SRV, '''		to, hit := req.msg["to"]
		if hit {
''', '''		to := req.msg["to"]
		if hit {
''')], REPLHELP + '''
func TestDemo(t *testing.T) {
	_, f, do := session(t)
	do("op", "eval-and-play", "code", "piano: c d %end e f")
	n := f.count("/midi/note")
	do("op", "replay", "to", "end")
	if m := f.count("/midi/note") - n; n != 4 || m != 2 {
		t.Fatal(n, m)
	}
}
''', pkg='repl', imports=REPLIMP)
seed('C15-load-offset', 'C15', 'loading a score in which the part that is declared last ends before another one',
 'after loading a score the player is put where some part ends, not where the last one ends',
 [(SRV, '''				if offsetRounded > newOffset {
					newOffset = offsetRounded
				}
''', '''				if newOffset == 0 || offsetRounded < newOffset {
					newOffset = offsetRounded
				}
''')], REPLHELP + '''
func TestDemo(t *testing.T) {
	_, f, do := session(t)
	do("op", "load", "code", "(tempo! 60)\\npiano: c1 c1\\nviolin: c4")
	if f.count("/system/offset\\x00\\x00,i\\x00\\x00\\x00\\x00\\x1f\\x40") != 1 {
		t.Fatalf("%q", f.got)
	}
}
''', pkg='repl', imports=REPLIMP)
seed('C15-two-answers', 'C15', 'a load request whose code is missing, or a request that follows an error of another kind in the same connection',
 'a load request that is refused is answered and then handled all the same, which loses the session',
 [(SRV, '''		if len(errors) > 0 {
			server.respondErrors(req, errors, nil)
			return
		}

		input := req.msg["code"].(string)

		if err := server.load(input); err != nil {''', '''		if len(errors) > 0 {
			server.respondErrors(req, errors, nil)
		}

		input, _ := req.msg["code"].(string)

		if err := server.load(input); err != nil {''')], REPLHELP + '''
func TestDemo(t *testing.T) {
	_, _, do := session(t)
	do("op", "eval-and-play", "code", "piano: c d")
	do("op", "load")
	if r := do("op", "score-text"); r["text"] != "piano: c d\\n" {
		t.Fatal(r)
	}
}
''', pkg='repl', imports=REPLIMP)
seed('C15-stuck-player', 'C15', 'a player process that is still listed but no longer answers pings, while another one is available',
 'a player that does not answer is asked again and again but never replaced',
 [('client/repl/player_management.go', '''					Msg("Player process unreachable.")

				server.unsetPlayer()
''', '''					Msg("Player process unreachable.")

				server.player.State = "unreachable"
''')], '''
func TestDemo(t *testing.T) {
	// A player that is listed (its state file is there) but does not answer.
	home := t.TempDir()
	system.CacheDir = home
	os.Setenv("ALDA_DISABLE_SPAWNING", "yes")
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	port := l.Addr().(*net.TCPAddr).Port
	l.Close()
	file := system.CachePath("state", "players", generated.ClientVersion, "abc.json")
	os.MkdirAll(filepath.Dir(file), 0o755)
	os.WriteFile(file, []byte(fmt.Sprintf(`{"state":"active","port":%d,"expiry":0}`, port)), 0o644)
	s := NewServer(0)
	s.player = system.PlayerState{ID: "abc", Port: port, State: "active"}
	go s.managePlayers()
	for i := 0; i < 120; i++ {
		time.Sleep(100 * time.Millisecond)
		if !s.hasPlayer() {
			return
		}
	}
	t.Fatal("still in use")
}
''', pkg='repl', imports=('fmt', 'net', 'os', 'path/filepath', 'time', 'alda.io/client/generated', 'alda.io/client/system'))
PM = 'client/system/process_management.go'
PMIMP = ('fmt', 'net', 'os', 'path/filepath', 'strings', 'time', 'alda.io/client/generated')
PMHELP = '''
var _ = fmt.Sprint
var _ = net.Listen
var _ = strings.Split
var _ = time.Now

func state(t *testing.T, id string, content string) string {
	if CacheDir == "" || !strings.HasPrefix(CacheDir, os.TempDir()) {
		CacheDir = t.TempDir()
	}
	file := CachePath("state", "players", generated.ClientVersion, id+".json")
	os.MkdirAll(filepath.Dir(file), 0o755)
	if err := os.WriteFile(file, []byte(content), 0o644); err != nil {
		t.Fatal(err)
	}
	return file
}

// an alda-player that only notes that it was run
func fakePlayer(t *testing.T) func() int {
	dir := t.TempDir()
	script := "#!/bin/sh\\nif [ \\"$1\\" = info ]; then echo alda-player " + generated.ClientVersion + "; else echo run >> " + dir + "/runs; fi\\n"
	os.WriteFile(filepath.Join(dir, "alda-player"), []byte(script), 0o755)
	os.Setenv("PATH", dir+":"+os.Getenv("PATH"))
	os.Unsetenv("ALDA_DISABLE_SPAWNING")
	return func() int {
		time.Sleep(500 * time.Millisecond)
		b, _ := os.ReadFile(dir + "/runs")
		return strings.Count(string(b), "run")
	}
}
'''
seed('C16-id-suffix', 'C16', 'a player whose ID ends with one of the letters j, s, o, n', 'the ID loses its last letters, so that the player is not found by its ID',
 [(PM, '''					Msg("Failed to read player state")
				return
			}

			state.ID = strings.Replace(filename, ".json", "", 1)
''', '''					Msg("Failed to read player state")
				return
			}

			state.ID = strings.TrimRight(filename, ".json")
''')], PMHELP + '''
func TestDemo(t *testing.T) {
	state(t, "kos", `{"state":"ready","port":1234,"expiry":0}`)
	p, err := FindPlayerByID("kos")
	if err != nil || p.Port != 1234 {
		t.Fatal(p, err)
	}
}
''', pkg='system', imports=PMIMP)
seed('C16-dead-player', 'C16', 'a player that died without deleting its state file, while another one is ready',
 'the state file of a player that does not answer stays, so that the search for a player never ends',
 [(PM, '''		"state", "players", generated.ClientVersion, playerID+".json",
''', '''		"state", "players", playerID+".json",
''')], PMHELP + '''
func TestDemo(t *testing.T) {
	file := state(t, "abc", `{"state":"ready","port":1,"expiry":0}`)
	if err := DeletePlayerStateFile("abc"); err != nil {
		t.Fatal(err)
	}
	if _, err := os.Stat(file); err == nil {
		t.Fatal("still there")
	}
}
''', pkg='system', imports=PMIMP)
seed('C16-pool-starting', 'C16', 'players that are starting and have not written their port yet', 'players that are starting are not counted, so that too many are started',
 [(PM, '''		if player.State == "ready" || player.State == "starting" {
''', '''		if player.Port != 0 && (player.State == "ready" || player.State == "starting") {
''')], PMHELP + '''
func TestDemo(t *testing.T) {
	runs := fakePlayer(t)
	for _, id := range []string{"aaa", "bbb"} {
		state(t, id, `{"state":"starting","port":0,"expiry":0}`)
	}
	if err := FillPlayerPool(); err != nil {
		t.Fatal(err)
	}
	if n := runs(); n != 1 {
		t.Fatal("players started:", n)
	}
}
''', pkg='system', imports=PMIMP)
seed('C16-stale-rest', 'C16', 'a state file that goes away while the directory is walked (here: a dangling link), before a stale one', 'the stale files after it are not deleted',
 [(PM, '''			fileInfo, err := os.Stat(path)
			if errors.Is(err, os.ErrNotExist) {
				return nil
''', '''			fileInfo, err := os.Stat(path)
			if errors.Is(err, os.ErrNotExist) {
				return filepath.SkipDir
''')], PMHELP + '''
func TestDemo(t *testing.T) {
	stale := state(t, "bbb", `{"state":"ready","port":1,"expiry":0}`)
	old := time.Now().Add(-90 * time.Second)
	os.Chtimes(stale, old, old)
	os.Symlink(filepath.Join(filepath.Dir(stale), "nothing"), filepath.Join(filepath.Dir(stale), "aaa.json"))
	ReadPlayerStates()
	if _, err := os.Stat(stale); err == nil {
		t.Fatal("still there")
	}
}
''', pkg='system', imports=PMIMP)
seed('C16-unreadable-entry', 'C16', 'an entry of the state directory that cannot be read, such as a directory, next to the state files', 'no player is found at all because of one entry that cannot be read',
 [(PM, '''		contents, readError := os.ReadFile(filepath)
''', '''		contents, readError := os.ReadFile(filepath)
		if readError != nil {
			return readError
		}
''')], PMHELP + '''
func TestDemo(t *testing.T) {
	file := state(t, "bbb", `{"state":"ready","port":1,"expiry":0}`)
	os.MkdirAll(filepath.Join(filepath.Dir(file), "aaa"), 0o755)
	states, err := ReadPlayerStates()
	if err != nil || len(states) != 1 {
		t.Fatal(states, err)
	}
}
''', pkg='system', imports=PMIMP)

# the command line
CLIMP = ('fmt', 'io', 'net', 'os', 'path/filepath', 'strings', 'sync', 'time', 'alda.io/client/generated', 'alda.io/client/system')
CLHELP = '''
var _ = fmt.Sprint
var _ = filepath.Join
var _ = time.Now

// a player that notes what it is told
type player struct {
	port int
	mu   sync.Mutex
	got  string
}

func (p *player) told(what string) bool {
	for i := 0; i < 20; i++ {
		p.mu.Lock()
		s := p.got
		p.mu.Unlock()
		if strings.Contains(s, what) {
			return true
		}
		time.Sleep(50 * time.Millisecond)
	}
	return false
}

func newPlayer(t *testing.T) *player {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	p := &player{port: l.Addr().(*net.TCPAddr).Port}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				b := make([]byte, 4096)
				for {
					n, err := c.Read(b)
					p.mu.Lock()
					p.got += string(b[:n])
					p.mu.Unlock()
					if err != nil {
						return
					}
				}
			}()
		}
	}()
	return p
}

func scratch(t *testing.T) {
	system.CacheDir, system.ConfigDir = t.TempDir(), t.TempDir()
	os.Setenv("ALDA_DISABLE_SPAWNING", "yes")
	os.Setenv("ALDA_DISABLE_TELEMETRY", "yes")
	null, err := os.Open(os.DevNull)
	if err != nil {
		t.Fatal(err)
	}
	os.Stdin = null
	_ = io.EOF
}

func known(t *testing.T, id, state string, port int) {
	dir := filepath.Join(system.CacheDir, "state", "players", generated.ClientVersion)
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, id+".json"), []byte(fmt.Sprintf(`{"state":%q,"port":%d,"expiry":0}`, state, port)), 0o644); err != nil {
		t.Fatal(err)
	}
}
'''
PLAY = 'client/cmd/play.go'
seed('C17-unpause-id', 'C17', '`alda play --player-id ID` without anything to play, while several players are paused',
 'all paused players go on playing, not only the one that was named',
 [(PLAY, '''		// Player ID is specified; look up the player by ID and use its port.
		case playerID != "":
''', '''		// Player ID is specified; look up the player by ID and use its port.
		case playerID != "" && action == "play":
''')], CLHELP + '''
func TestDemo(t *testing.T) {
	scratch(t)
	a, b := newPlayer(t), newPlayer(t)
	known(t, "aaa", "active", a.port)
	known(t, "bbb", "active", b.port)
	playerID = "bbb"
	if err := playCmd.RunE(playCmd, nil); err != nil {
		t.Fatal(err)
	}
	if !b.told("/system/play") {
		t.Fatal("the player was not told")
	}
	if a.told("/system/play") {
		t.Fatal("the other player was told, too")
	}
}
''', pkg='cmd', imports=CLIMP)
seed('C17-stop-first-failure', 'C17', 'a player that is gone, with its state file left behind, next to one that plays',
 'the players after it are not stopped',
 [('client/cmd/stop.go', '''					Msg("Failed to send \\"stop\\" message to player process.")
''', '''					Msg("Failed to send \\"stop\\" message to player process.")
				break
''')], CLHELP + '''
func TestDemo(t *testing.T) {
	scratch(t)
	a := newPlayer(t)
	known(t, "aaa", "active", 1)
	known(t, "bbb", "active", a.port)
	if err := stopCmd.RunE(stopCmd, nil); err != nil {
		t.Fatal(err)
	}
	if !a.told("/system/stop") {
		t.Fatal("it was not told to stop")
	}
}
''', pkg='cmd', imports=CLIMP)
seed('C17-export-left', 'C17', 'an export into a file (-o), and `alda play` without anything to play after it',
 'the player that was used for the export is not shut down, so that it plays the exported score later',
 [('client/cmd/export.go', '''		defer func() {
			transmitter.TransmitShutdownMessage(0)
''', '''		defer func() {
			if outputFilename != "" {
				return
			}

			transmitter.TransmitShutdownMessage(0)
''')], CLHELP + '''
func TestDemo(t *testing.T) {
	scratch(t)
	a := newPlayer(t)
	known(t, "aaa", "ready", a.port)
	code, outputFormat = "piano: c d e", "midi"
	outputFilename = filepath.Join(t.TempDir(), "x.mid")
	os.WriteFile(outputFilename, []byte("x"), 0o644)
	if err := exportCmd.RunE(exportCmd, nil); err != nil {
		t.Fatal(err)
	}
	if !a.told("/system/midi/export") {
		t.Fatal("it was not asked to export")
	}
	if !a.told("/system/shutdown") {
		t.Fatal("it was not shut down")
	}
}
''', pkg='cmd', imports=CLIMP)
seed('C17-background-done', 'C17', 'a command that is done before the players are started, such as `alda version`',
 'the program does not wait for what goes on in the background, so that it is cut off',
 [('client/cmd/root.go', '''	go func() {
		thunk()
		done <- true
''', '''	go func() {
		defer thunk()
		done <- true
''')], CLHELP + '''
func TestDemo(t *testing.T) {
	did := false
	startBackgroundActivity("wait", func() {
		time.Sleep(300 * time.Millisecond)
		did = true
	})
	AwaitBackgroundActivities()
	if !did {
		t.Fatal("it was not waited for")
	}
}
''', pkg='cmd', imports=CLIMP)
seed('C17-shutdown-ready', 'C17', 'players that have not been used yet when `alda shutdown` is run',
 'only the players that play are shut down; the others stay',
 [('client/cmd/shutdown.go', '''			players = append(players, knownPlayers...)
''', '''			for _, player := range knownPlayers {
				if player.State == "active" || playerID != "" {
					players = append(players, player)
				}
			}
''')], CLHELP + '''
func TestDemo(t *testing.T) {
	scratch(t)
	a := newPlayer(t)
	known(t, "aaa", "ready", a.port)
	if err := shutdownCmd.RunE(shutdownCmd, nil); err != nil {
		t.Fatal(err)
	}
	if !a.told("/system/shutdown") {
		t.Fatal("it was not shut down")
	}
}
''', pkg='cmd', imports=CLIMP)
seed('C17-parse-eval-error', 'C17', 'a score that can be parsed, but fails while it is evaluated, given to `alda play`',
 'the mistake in the score is presented as a bug of Alda instead of as a mistake at a line and column',
 [(PLAY, '''			scoreUpdates, err = ast.Updates()

			// Errors with source context are presented to the user as-is.
			//
			// See TODO notes above.
			switch err.(type) {
			case *model.AldaSourceError:
				err = &help.UserFacingError{Err: err}
			}

			if err != nil {
				return err
			}
		}

		score := model.NewScore()
		start := time.Now()
		err = score.Update(scoreUpdates...)
''', '''			scoreUpdates, err = ast.Updates()

			// Errors with source context are presented to the user as-is.
			//
			// See TODO notes above.
			switch err.(type) {
			case *model.AldaSourceError:
				err = &help.UserFacingError{Err: err}
			}

			if err != nil {
				return err
			}
		}

		score := model.NewScore()
		start := time.Now()
		if err := score.Update(scoreUpdates...); err != nil {
			return err
		}
''')], CLHELP + '''
func TestDemo(t *testing.T) {
	scratch(t)
	code, playerPort = "piano: c d (vol 101)", 1
	err := playCmd.RunE(playCmd, nil)
	if err == nil {
		t.Fatal("no error")
	}
	if _, ok := err.(*help.UserFacingError); !ok {
		t.Fatalf("%T", err)
	}
}
''', pkg='cmd', imports=CLIMP + ('alda.io/client/help',))

UPDATECMD = 'client/cmd/update.go'
UPHELP = CLHELP + '''
type answers func(url string) (int, string)

func (f answers) RoundTrip(r *http.Request) (*http.Response, error) {
	code, body := f(r.URL.String())
	return &http.Response{StatusCode: code, ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, ContentLength: int64(len(body)), Body: io.NopCloser(strings.NewReader(body)), Request: r}, nil
}

// what the network says
func answer(f answers) { http.DefaultTransport = f }

func answered(t *testing.T, lines string) {
	f := filepath.Join(t.TempDir(), "in")
	os.WriteFile(f, []byte(lines), 0644)
	in, err := os.Open(f)
	if err != nil {
		t.Fatal(err)
	}
	os.Stdin = in
}
'''
UPIMP = CLIMP + ('net/http', 'runtime', 'alda.io/client/json', 'alda.io/client/text')
UPUSE = '''
var _ = runtime.GOOS

func back(t *testing.T, s string) *json.Container {
	c, err := json.ParseJSON([]byte(s))
	if err != nil { t.Fatal(err) }
	return c
}
var _ = text.Indent
'''
seed('C18-not-found-installed', 'C18', 'a release whose asset is gone from the server (404)',
 'the text of the error page is installed as the program',
 [(UPDATECMD, '''		if response.StatusCode != 200 {
			responseBody, err := io.ReadAll(response.Body)
			if err != nil {
				log.Error().Err(err).Msg("Unable to read response body")''', '''		if response.StatusCode >= 500 {
			responseBody, err := io.ReadAll(response.Body)
			if err != nil {
				log.Error().Err(err).Msg("Unable to read response body")''')], UPHELP + UPUSE + '''
func TestDemo(t *testing.T) {
	scratch(t)
	answer(func(url string) (int, string) { return 404, "no such thing" })
	dir, err := downloadAssets([]releaseAsset{{assetName: "alda-demo", assetType: "executable", assetUrl: "http://localhost/x"}})
	if err == nil {
		os.RemoveAll(dir)
		t.Fatal("an error page is taken for the program")
	}
}
''', pkg='cmd', imports=UPIMP)
seed('C18-any-answer', 'C18', 'an answer to the question whether to install that is neither yes nor no',
 'the default answer is taken, so what was not confirmed is installed',
 [('client/text/interaction.go', '''		case "n", "no":
			return false
		}''', '''		case "n", "no":
			return false
		default:
			return defaultToYes
		}''')], UPHELP + UPUSE + '''
func TestDemo(t *testing.T) {
	answered(t, "nope\\nn\\n")
	if text.PromptForConfirmation("Install it?", true) {
		t.Fatal("that was not a yes")
	}
}
''', pkg='cmd', imports=UPIMP)
seed('C18-doctor-all', 'C18', 'alda doctor installing the player, when the release lists alda after alda-player',
 'the program itself is replaced, and the player is not installed',
 [(UPDATECMD, '''		if asset.assetName == "alda-player" ||
			asset.assetName == "alda-player.exe" {
			aldaPlayerAsset = asset
		}''', '''		if strings.HasPrefix(asset.assetName, "alda") {
			aldaPlayerAsset = asset
		}''')], UPHELP + UPUSE + '''
func TestDemo(t *testing.T) {
	scratch(t)
	var got []string
	answer(func(url string) (int, string) {
		if strings.Contains(url, "/release/") {
			return 200, fmt.Sprintf(`{"version":"1","assets":{"%s-%s":[{"name":"alda-player","type":"executable","url":"http://localhost/player"},{"name":"alda","type":"executable","url":"http://localhost/alda"}]}}`, runtime.GOOS, runtime.GOARCH)
		}
		got = append(got, url)
		return 404, "x"
	})
	installCorrectAldaPlayerVersion()
	if fmt.Sprint(got) != "[http://localhost/player]" {
		t.Fatal(got)
	}
}
''', pkg='cmd', imports=UPIMP)
seed('C18-asset-skipped', 'C18', 'a release in which one of the assets has no URL',
 'it is left out without a word, and an update of a part of the program is installed',
 [(UPDATECMD, '''		assetUrl, ok := m["url"].(string)
		if !ok {
			return nil, errUnexpectedAsset
		}''', '''		assetUrl, ok := m["url"].(string)
		if !ok {
			continue
		}''')], UPHELP + UPUSE + '''
func TestDemo(t *testing.T) {
	info, err := json.ParseJSONBuffer(strings.NewReader(fmt.Sprintf(`{"version":"1","assets":{"%s-%s":[{"name":"alda-player","type":"executable"},{"name":"alda","type":"executable","url":"http://localhost/alda"}]}}`, runtime.GOOS, runtime.GOARCH)))
	if err != nil {
		t.Fatal(err)
	}
	if assets, err := versionAssets(info); err == nil {
		t.Fatal(assets)
	}
}
''', pkg='cmd', imports=UPIMP)
seed('C18-missing-directory', 'C18', 'installing a program that cannot be moved out of the way (the directory is read-only)',
 'it is overwritten in place, so that when it cannot be written in whole there is none left',
 [(UPDATECMD, '''	if err != nil && !errors.Is(err, os.ErrNotExist) {
		return err
	}
''', '''	if err != nil && !errors.Is(err, os.ErrNotExist) {
		log.Warn().Err(err).Msg("Unable to rename existing executable.")
	}
''')], UPHELP + UPUSE + '''
func TestDemo(t *testing.T) {
	// a directory cannot be renamed to below itself, nor over one: make the
	// renaming fail by a name that is too long once it has been changed
	exe, err := system.AldaExecutablePath()
	if err != nil {
		t.Fatal(err)
	}
	name := strings.Repeat("x", 250)
	there := filepath.Join(filepath.Dir(exe), name)
	if err := os.WriteFile(there, []byte("old"), 0755); err != nil {
		t.Fatal(err)
	}
	in := t.TempDir()
	os.WriteFile(filepath.Join(in, name), []byte("new"), 0644)
	err = installAsset(in, releaseAsset{assetName: name, assetType: "executable"})
	b, _ := os.ReadFile(there)
	os.Remove(there)
	if err == nil || string(b) != "old" {
		t.Fatal(err, string(b))
	}
}
''', pkg='cmd', imports=UPIMP)
seed('C18-format-both', 'C18', 'alda format with both a length of lines and an indentation',
 'the length of lines is ignored',
 [('client/cmd/format.go', '''		if formatConfiguredWrapLen > 0 && len(formatConfiguredIndentText) > 0 {
			err = parser.FormatASTToCode(
				root,
				out,
				parser.ConfigureSoftWrapLen(formatConfiguredWrapLen),
				parser.ConfigureIndentText(formatConfiguredIndentText),
			)
		} else if formatConfiguredWrapLen > 0 {
			err = parser.FormatASTToCode(
				root,
				out,
				parser.ConfigureSoftWrapLen(formatConfiguredWrapLen),
			)
		} else if len(formatConfiguredIndentText) > 0 {
			err = parser.FormatASTToCode(
				root,
				out,
				parser.ConfigureIndentText(formatConfiguredIndentText),
			)
		} else {''', '''		if len(formatConfiguredIndentText) > 0 {
			err = parser.FormatASTToCode(
				root,
				out,
				parser.ConfigureIndentText(formatConfiguredIndentText),
			)
		} else if formatConfiguredWrapLen > 0 {
			err = parser.FormatASTToCode(
				root,
				out,
				parser.ConfigureSoftWrapLen(formatConfiguredWrapLen),
			)
		} else {''')], UPHELP + UPUSE + '''
func TestDemo(t *testing.T) {
	scratch(t)
	f := filepath.Join(t.TempDir(), "x.alda")
	os.WriteFile(f, []byte("piano: "+strings.Repeat("c d e f ", 30)), 0644)
	formatInputFile, formatOverwrite, formatConfiguredWrapLen, formatConfiguredIndentText = f, true, 20, " "
	if err := formatCmd.RunE(formatCmd, nil); err != nil {
		t.Fatal(err)
	}
	b, _ := os.ReadFile(f)
	for _, l := range strings.Split(string(b), "\\n") {
		if len(l) > 30 {
			t.Fatalf("%q", l)
		}
	}
}
''', pkg='cmd', imports=UPIMP)

TELEMETRYCMD = 'client/cmd/telemetry.go'
ROOTCMD = 'client/cmd/root.go'
TELHELP = UPHELP + UPUSE + '''
func status(t *testing.T, s string) {
	scratch(t)
	os.Unsetenv("ALDA_DISABLE_TELEMETRY")
	if err := os.WriteFile(filepath.Join(system.ConfigDir, "telemetry-status"), []byte(s), 0644); err != nil {
		t.Fatal(err)
	}
}

// what is sent
func sent() *[]string {
	var got []string
	http.DefaultTransport = recorder{&got}
	return &got
}

type recorder struct{ got *[]string }

func (x recorder) RoundTrip(r *http.Request) (*http.Response, error) {
	b, _ := io.ReadAll(r.Body)
	*x.got = append(*x.got, r.URL.String()+" "+string(b))
	return &http.Response{StatusCode: 200, Header: http.Header{}, Body: io.NopCloser(strings.NewReader("")), Request: r}, nil
}
'''
seed('C19-env-late', 'C19', 'telemetry that is enabled, and ALDA_DISABLE_TELEMETRY=yes for one session',
 'the variable is looked at only if there is no file, so usage is reported all the same',
 [(TELEMETRYCMD, '''	if os.Getenv("ALDA_DISABLE_TELEMETRY") == "yes" {
		log.Info().
			Str("ALDA_DISABLE_TELEMETRY", "yes").
			Msg("Telemetry is disabled.")

		return TelemetryDisabled, nil
	}

	telemetryStatusFile := system.QueryConfig(telemetryStatusFileName)

	if telemetryStatusFile == "" {
		return TelemetryNotInformed, nil
	}
''', '''	telemetryStatusFile := system.QueryConfig(telemetryStatusFileName)

	if telemetryStatusFile == "" {
		if os.Getenv("ALDA_DISABLE_TELEMETRY") == "yes" {
			log.Info().
				Str("ALDA_DISABLE_TELEMETRY", "yes").
				Msg("Telemetry is disabled.")

			return TelemetryDisabled, nil
		}

		return TelemetryNotInformed, nil
	}
''')], TELHELP + '''
func TestDemo(t *testing.T) {
	status(t, "enabled")
	os.Setenv("ALDA_DISABLE_TELEMETRY", "yes")
	if s, err := readTelemetryStatus(); s != TelemetryDisabled || err != nil {
		t.Fatal(s, err)
	}
}
''', pkg='cmd', imports=UPIMP)
seed('C19-not-known', 'C19', 'a file about telemetry that cannot be read (it is a directory) when a command is run',
 'usage is reported although it is not known whether the user has disabled that',
 [(ROOTCMD, '''			Msg("Couldn't determine whether telemetry is enabled.")
		return
	}
''', '''			Msg("Couldn't determine whether telemetry is enabled.")
	}
''')], TELHELP + '''
func TestDemo(t *testing.T) {
	scratch(t)
	os.Unsetenv("ALDA_DISABLE_TELEMETRY")
	os.Mkdir(filepath.Join(system.ConfigDir, "telemetry-status"), 0755)
	got := sent()
	sendTelemetry("play")
	AwaitBackgroundActivities()
	if len(*got) > 0 {
		t.Fatal(*got)
	}
}
''', pkg='cmd', imports=UPIMP)
seed('C19-arguments', 'C19', 'any command with arguments, e.g. the code of a score',
 'the arguments are reported, too: paths and the code of the score',
 [(TELEMETRYCMD, '''		"command": command,
''', '''		"command": strings.Join(append([]string{command}, os.Args[1:]...), " "),
'''), (TELEMETRYCMD, '''	"runtime"
	"time"
''', '''	"runtime"
	"strings"
	"time"
''')], TELHELP + '''
func TestDemo(t *testing.T) {
	scratch(t)
	os.Args = []string{"alda", "play", "-c", "my secret score"}
	got := sent()
	sendTelemetryRequest("play")
	if len(*got) != 1 || strings.Contains((*got)[0], "secret") {
		t.Fatal(*got)
	}
}
''', pkg='cmd', imports=UPIMP)
seed('C19-disable-fails', 'C19', 'alda telemetry --disable when the file cannot be written',
 'it says that telemetry is disabled, but it is not',
 [(TELEMETRYCMD, '''			if err := disableTelemetry(); err != nil {
				return err
			}
''', '''			if err := disableTelemetry(); err != nil {
				log.Warn().Err(err).Msg("Failed to disable telemetry.")
			}
''')], TELHELP + '''
func TestDemo(t *testing.T) {
	scratch(t)
	os.Unsetenv("ALDA_DISABLE_TELEMETRY")
	f := filepath.Join(t.TempDir(), "x")
	os.WriteFile(f, nil, 0644)
	system.ConfigDir = f // not a directory
	telemetryDisable = true
	if err := telemetryCmd.RunE(telemetryCmd, nil); err == nil {
		t.Fatal("it is not disabled")
	}
}
''', pkg='cmd', imports=UPIMP)
seed('C19-any-address', 'C19', 'a REPL server, and another machine of the network that connects to it',
 'anyone who can reach the machine can use the session',
 [(SRV, '''	l, err := net.Listen("tcp", "127.0.0.1:"+strconv.Itoa(server.Port))''', '''	l, err := net.Listen("tcp", ":"+strconv.Itoa(server.Port))''')], '''
func TestDemo(t *testing.T) {
	os.Chdir(t.TempDir())
	system.CacheDir, system.ConfigDir = t.TempDir(), t.TempDir()
	os.Setenv("ALDA_DISABLE_SPAWNING", "yes")
	port, err := system.FindOpenPort()
	if err != nil {
		t.Fatal(err)
	}
	if _, err := RunServer(port); err != nil {
		t.Fatal(err)
	}
	// not the address that it says it is at
	c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.2:%d", port))
	if err == nil {
		c.Close()
		t.Fatal("it is at every address of this machine")
	}
}
''', pkg='repl', imports=('fmt', 'net', 'os', 'alda.io/client/system'))
CLI = 'client/repl/client.go'
CLIIMP = ('net', 'os', 'path/filepath', 'sync', 'time', 'bencode github.com/jackpal/bencode-go')
CLIHELP = '''
var _ = os.Getenv
var _ = filepath.Join
var _ = time.Now

type msg = map[string]interface{}

// fake: a server that answers with what this says; nil is no answer.
func fake(t *testing.T, answer func(m msg) msg) (*Client, func() []msg) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { l.Close() })
	var mu sync.Mutex
	var got []msg
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				for {
					v, err := bencode.Decode(c)
					if err != nil {
						return
					}
					m := v.(msg)
					mu.Lock()
					got = append(got, m)
					mu.Unlock()
					if a := answer(m); a != nil {
						bencode.Marshal(c, a)
					}
				}
			}()
		}
	}()
	client, err := NewClient("127.0.0.1", l.Addr().(*net.TCPAddr).Port)
	if err != nil {
		t.Fatal(err)
	}
	return client, func() []msg { mu.Lock(); defer mu.Unlock(); return append([]msg{}, got...) }
}
'''
seed('C20-save-empty', 'C20', ':save while the server answers the request for the text with an error',
 'the file of the user is overwritten with nothing, and :save reports no error',
 [(CLI, '''		return "", fmt.Errorf(
			"the response from the REPL server did not contain the score " +
				"text",
		)
	}
	return res["text"].(string), nil''', '''		return "", nil
	}
	return res["text"].(string), nil''')], CLIHELP + '''
func TestDemo(t *testing.T) {
	c, _ := fake(t, func(m msg) msg {
		return msg{"id": m["id"], "status": []string{"done", "error"}, "problems": []string{"no"}}
	})
	f := filepath.Join(t.TempDir(), "a.alda")
	os.WriteFile(f, []byte("piano: c"), 0644)
	err := c.handleCommand("save", f)
	if b, _ := os.ReadFile(f); err == nil || string(b) != "piano: c" {
		t.Fatal(err, string(b))
	}
}
''', pkg='repl', imports=CLIIMP)
seed('C20-status-last', 'C20', 'an answer whose status lists error before done',
 'an error of the server is taken for success: nothing is printed, and alda --message exits as if it had worked',
 [(CLI, '''		if status == "error" {
			errorStatus = true
		}
''', '''		errorStatus = status == "error"
''')], '''
func TestDemo(t *testing.T) {
	for _, status := range [][]interface{}{{"done", "error"}, {"error", "done"}} {
		if es := ResponseErrors(map[string]interface{}{"status": status, "problems": []interface{}{"no"}}); len(es) != 1 || es[0] != "no" {
			t.Fatal(status, es)
		}
	}
}
''', pkg='repl')
seed('C20-play-repeated', 'C20', ':play with two from arguments',
 'the first of them is forgotten without a word, and the score is played from the second',
 [(CLI, '''						_, hit := req["from"]
						if hit {
							return invalidArgsError(args)
						}
						i++
						req["from"] = args[i]''', '''						i++
						req["from"] = args[i]''')], CLIHELP + '''
func TestDemo(t *testing.T) {
	c, got := fake(t, func(m msg) msg { return msg{"id": m["id"], "status": []string{"done"}} })
	for _, args := range []string{"from 0:01 from 0:02", "to 0:01 to 0:02", "from", "from 0:01 to", "at 0:01"} {
		if err := c.handleCommand("play", args); err == nil || len(got()) != 0 {
			t.Fatal(args, err, got())
		}
	}
}
''', pkg='repl', imports=CLIIMP)
seed('C20-no-id', 'C20', 'a message of the server that has no id, e.g. one that is not an answer',
 'it is taken for the answer to the request, and every answer after that for the one to the next request',
 [(CLI, '''	if res["id"] != messageID {''', '''	if id, hit := res["id"]; hit && id != messageID {''')], CLIHELP + '''
func TestDemo(t *testing.T) {
	c, _ := fake(t, func(m msg) msg { return msg{"status": []string{"done"}, "out": "hello"} })
	if res, err := c.sendRequest(msg{"op": "describe"}); err == nil {
		t.Fatal(res)
	}
}
''', pkg='repl', imports=CLIIMP)
seed('C20-deadline-once', 'C20', 'a session in which a request is made more than 30 seconds after connecting',
 'the time limit runs from the moment of connecting, not from the request: every request after 30 seconds fails at once',
 [(CLI, '''	// Avoid hanging forever if the server doesn't respond.
	client.serverConn.SetReadDeadline(time.Now().Add(30 * time.Second))

''', ''), (CLI, '''			client.serverConn = conn
			return nil
''', '''			client.serverConn = conn
			// Avoid hanging forever if the server doesn't respond.
			return conn.SetReadDeadline(time.Now().Add(30 * time.Second))
''')], CLIHELP + '''
func TestDemo(t *testing.T) {
	c, _ := fake(t, func(m msg) msg { return msg{"id": m["id"], "status": []string{"done"}} })
	time.Sleep(31 * time.Second)
	if _, err := c.sendRequest(msg{"op": "describe"}); err != nil {
		t.Fatal(err)
	}
}
''', pkg='repl', imports=CLIIMP)
seed('C20-load-again', 'C20', ':load without a name, after the file it loads has been removed or cannot be read',
 'an empty score is sent, which takes the place of the one in the session, and :load reports the error only afterwards',
 [(CLI, '''				contents, err := os.ReadFile(client.inputFilepath)
				if err != nil {
					return err
				}

				_, err = client.sendRequest(
					map[string]interface{}{
						"op":   "load",
						"code": string(contents)},
				)
				if err != nil {
					return err
				}

				return nil
''', '''				contents, readErr := os.ReadFile(client.inputFilepath)

				_, err = client.sendRequest(
					map[string]interface{}{
						"op":   "load",
						"code": string(contents)},
				)
				if err != nil {
					return err
				}

				return readErr
''')], CLIHELP + '''
func TestDemo(t *testing.T) {
	c, got := fake(t, func(m msg) msg { return msg{"id": m["id"], "status": []string{"done"}} })
	f := filepath.Join(t.TempDir(), "a.alda")
	os.WriteFile(f, []byte("piano: c"), 0644)
	if err := c.handleCommand("load", f); err != nil || got()[0]["code"] != "piano: c" {
		t.Fatal(err, got())
	}
	os.Remove(f)
	if err := c.handleCommand("load", ""); err == nil || len(got()) != 1 {
		t.Fatal(err, got())
	}
}
''', pkg='repl', imports=CLIIMP)

# ---- C21: determinism ----
seed('C21-group-set', 'C21', 'a group of instruments that are new to the score',
 'the parts of a group are put into the score in the order of a map: the tempo master and the tracks differ from run to run',
 [('client/model/part.go', '''	for _, part := range stockParts {
		if _, exists := partsSet[part]; !exists {
			parts = append(parts, part)
		}
		partsSet[part] = true
	}

	return parts, nil
''', '''	if len(stockParts) == 0 {
		return parts, nil
	}

	for _, part := range stockParts {
		partsSet[part] = true
	}
	for part := range partsSet {
		parts = append(parts, part)
	}

	return parts, nil
''')], '''
func TestDemo(t *testing.T) {
	for i := 0; i < 100; i++ {
		s := run(t, "piano/violin/cello: c d")
		names := ""
		for _, p := range s.Parts { names += p.Name + " " }
		eq(t, "parts", names, "piano violin cello ")
	}
}
''')
seed('C21-voice-last', 'C21', 'three voices, two of which, not the last one, end last at the same time, with different attributes',
 'which of the two voices the part goes on with is up to the order of a map',
 [('client/model/voice.go', '''			for _, voiceNumber := range insertionOrder[0 : len(insertionOrder)-1] {
				voice := part.GetVoice(voiceNumber)

				if voice''', '''			for _, voice := range part.voices.voices {
				if voice''')], '''
func TestDemo(t *testing.T) {
	for i := 0; i < 100; i++ {
		s := run(t, "piano: V1: (vol 20) c1 V2: (vol 80) e1 V3: g4 V0: c")
		ns := notes(s)
		eq(t, "volume", math.Round(ns[len(ns)-1].Volume*100), 20.0)
	}
}
''')
seed('C21-window-map', 'C21', 'two global changes of the same attribute within the time of one note of another part',
 'the changes are applied in the order of a map, so that either can be the last one',
 [('client/model/attributes.go', '''	for _, offset := range ga.offsets {
		if offset > endOffset {
			return updates
		}

		if offset > startOffset {
			updates = append(updates, ga.itinerary[offset]...)
		}
	}
''', '''	for offset, recorded := range ga.itinerary {
		if offset > startOffset && offset <= endOffset {
			updates = append(updates, recorded...)
		}
	}
''')], '''
func TestDemo(t *testing.T) {
	for i := 0; i < 100; i++ {
		s := run(t, "piano: c4 (vol! 20) c (vol! 80) c c\\nviolin: c1 c4")
		ns := notes(s)
		eq(t, "volume", math.Round(ns[len(ns)-1].Volume*100), 80.0)
	}
}
''')
seed('C21-pitch-cache', 'C21', 'two scores in one process, with key signatures that have as many accidentals',
 'pitches are remembered from one score to the next without regard to the key: a D major c# is played in B flat major',
 [('client/model/pitch.go', '''	baseMidiNoteNumber := ((octave + 1) * 12) +
		NoteLetterIntervals[laa.NoteLetter]

''', '''	cached := pitchKey{
		letter: laa.NoteLetter, explicit: fmt.Sprint(laa.Accidentals == nil, laa.Accidentals),
		octave: octave, signature: len(keySignature),
	}
	if midiNote, ok := pitches[cached]; ok {
		return midiNote + transposition
	}

	baseMidiNoteNumber := ((octave + 1) * 12) +
		NoteLetterIntervals[laa.NoteLetter]

'''), ('client/model/pitch.go', '''			baseMidiNoteNumber++
		}
	}

	return''', '''			baseMidiNoteNumber++
		}
	}

	pitches[cached] = baseMidiNoteNumber

	return'''), ('client/model/pitch.go', '''// LetterAndAccidentals specifies''', '''type pitchKey struct {
	letter    NoteLetter
	explicit  string
	octave    int32
	signature int
}

var pitches = map[pitchKey]int32{}

// LetterAndAccidentals specifies''')], '''
func TestDemo(t *testing.T) {
	eq(t, "B flat", midi(run(t, `piano: (key-sig "b- e-") c d e`), ""), M{60, 62, 63})
	eq(t, "D", midi(run(t, `piano: (key-sig "f+ c+") c d e`), ""), M{61, 62, 64})
	eq(t, "B flat again", midi(run(t, `piano: (key-sig "b- e-") c d e`), ""), M{60, 62, 63})
}
''')
seed('C21-shared-tempos', 'C21', 'a second score in the same process (the REPL after :new, a reload, :play again)',
 'all parts that have not changed their tempo yet share one map, so that the tempo changes of one score are in the next',
 [('client/model/part.go', '''		TempoValues:            map[float64]float64{},
''', '''		TempoValues:            noTempoValues,
'''), ('client/model/part.go', '''// NewPart returns a new part in the score.
''', '''// A part has no tempo values of its own at first.
var noTempoValues = map[float64]float64{}

// NewPart returns a new part in the score.
''')], '''
func TestDemo(t *testing.T) {
	run(t, "piano: c (tempo 200) d")
	eq(t, "tempos", run(t, "piano: c1 c c").TempoItinerary(), map[float64]float64{0: 120})
}
''')
seed('C21-parallel-tempos', 'C21', 'a score with several tempo changes, on a machine with several cores',
 'the tempo messages are made beside each other and arrive in the order in which they happen to be finished',
 [('client/transmitter/osc.go', '''	messages := []*osc.Message{}

	// Now, we want to emit tempo''', '''	messages := []*osc.Message{}
	made := make(chan *osc.Message)
	pending := 0

	// Now, we want to emit tempo'''), ('client/transmitter/osc.go', '''		messages = append(messages, systemTempoMsg(offsetRounded, tempo32))
	}
''', '''		pending++
		go func() { made <- systemTempoMsg(offsetRounded, tempo32) }()
	}

	for ; pending > 0; pending-- {
		messages = append(messages, <-made)
	}
''')], '''
func TestDemo(t *testing.T) {
	s := run(t, "piano: c (tempo 130) d (tempo 140) e (tempo 150) f (tempo 160) g (tempo 170) a")
	first := ""
	for i := 0; i < 300; i++ {
		b, err := (transmitter.OSCTransmitter{Port: 1}).ScoreToOSCBundle(s)
		if err != nil { t.Fatal(err) }
		got := ""
		for _, m := range b.Messages { if strings.Contains(m.Address, "tempo") { got += fmt.Sprint(m.Arguments) } }
		if first == "" { first = got }
		eq(t, "messages", got, first)
	}
}
''', imports=('fmt', 'strings', 'alda.io/client/transmitter'))
seed('C21-help-order', 'C21', 'several runs of the REPL',
 ':help lists the commands in another order each time',
 [('client/repl/client.go', '''	sort.Strings(sortedKeys)

''', '')], '''
func TestDemo(t *testing.T) {
	var names []string
	for _, l := range strings.Split(commandsSummmary, "\\n") {
		if f := strings.Fields(l); len(f) > 0 { names = append(names, f[0]) }
	}
	if !sort.StringsAreSorted(names) { t.Fatal(names) }
}
''', pkg='repl', imports=('sort', 'strings'), helpers='')
seed('C21-track-address', 'C21', 'a score with several parts; addresses of parts that are not in the order in which they were made',
 'tracks are numbered in the order of the addresses of the parts in memory',
 [('client/model/score.go', '''	for i, part := range score.Parts {
		tracks[part.origin] = int32(i + 1)
	}
''', '''	origins := []*Part{}
	for _, part := range score.Parts {
		origins = append(origins, part.origin)
	}
	sort.Slice(origins, func(i, j int) bool { return origins[i].ID() < origins[j].ID() })

	for i, part := range origins {
		tracks[part] = int32(i + 1)
	}
'''), ('client/model/score.go', '''	"regexp"
''', '''	"regexp"
	"sort"
''')], '''
func TestDemo(t *testing.T) {
	for i := 0; i < 400; i++ {
		s := run(t, "piano: c\\nviolin: c\\ncello: c\\nflute: c\\noboe: c\\nbassoon: c\\nharp: c")
		if i%7 == 0 { runtime.GC() }
		for k, p := range s.Parts { eq(t, "track", s.Tracks()[p], int32(k+1)) }
	}
}
''', imports=('runtime',))
FMT = 'client/parser/format.go'
FMTIMP = ('bytes', 'reflect', 'strings', 'alda.io/client/parser')
FMTHELP = '''
var _ = strings.Split

func shape(n parser.ASTNode) []interface{} {
	out := []interface{}{n.Type.String(), n.Literal}
	for _, c := range n.Children {
		if c.Type != parser.BarlineNode { out = append(out, shape(c)) }
	}
	return out
}

func again(t *testing.T, src string, wrap int) string {
	root, err := parser.ParseString(src)
	if err != nil { t.Fatal(err) }
	out := bytes.Buffer{}
	if err := parser.FormatASTToCode(root, &out, parser.ConfigureSoftWrapLen(wrap)); err != nil { t.Fatal(err) }
	back, err := parser.ParseString(out.String())
	if err != nil { t.Fatal(out.String(), err) }
	if !reflect.DeepEqual(shape(root), shape(back)) { t.Fatalf("%s\\n=>\\n%s", src, out.String()) }
	return out.String()
}
'''
def fmtseed(id, needs, what, edits, body):
    seed(id, 'C22', needs, what, edits, FMTHELP + '\nfunc TestDemo(t *testing.T) {\n' + body + '\n}\n', imports=FMTIMP)
fmtseed('C22-precision', 'a duration in milliseconds with more than three digits after the point',
 'the formatter rounds durations in milliseconds to three digits',
 [(FMT, '''				"%sms",
				strconv.FormatFloat(child.Literal.(float64), 'f', -1, 64),
''', '''				"%sms",
				strings.TrimRight(strings.TrimRight(strconv.FormatFloat(child.Literal.(float64), 'f', 3, 64), "0"), "."),
''')], '	again(t, "piano: c250ms d0.5ms", 80)\n	again(t, "piano: c1250.0625ms~2", 80)')
fmtseed('C22-slur-before-bar', 'a slurred note whose duration ends in a barline, and another barline in the duration',
 'the slur of a note is lost when its duration ends in a barline',
 [(FMT, '''			if i == len(duration.Children)-1 {
''', '''			if i == len(duration.Children)-1 && i == 1 {
''')], '	again(t, "piano: c1|~1~ d", 80)\n	again(t, "piano: c1|~ d", 80)\n	again(t, "piano: c4~8|~ d", 80)')
fmtseed('C22-chord-rest', 'a chord whose last member is a rest without a duration',
 'the separator before a rest that ends a chord is not written',
 [(FMT, '''				if child.Type == NoteNode || child.Type == RestNode {
					lastNoteOrRest = i
				}
''', '''				if child.Type == NoteNode || child.Type == RestNode && len(child.Children) > 0 {
					lastNoteOrRest = i
				}
''')], '	again(t, "piano: c1/e/g d", 80)\n	again(t, "piano: c1/e/r d", 80)')
fmtseed('C22-natural', 'a note with a natural sign and another accidental after it',
 'accidentals after a natural sign are dropped by the formatter',
 [(FMT, '''				for _, child := range accidentals.Children {
''', '''				for i, child := range accidentals.Children {
					if i > 0 && accidentals.Children[i-1].Type == NaturalNode {
						break
					}
''')], '	again(t, "piano: c_ d++ e--", 80)\n	again(t, "piano: c__ d", 80)')
fmtseed('C22-vardef-break', 'a variable definition within a voice, wider than the line, whose last event has more than one text',
 'a definition that is wider than a line is broken after its last event has begun: what follows no longer belongs to it',
 [(FMT, '''	if len(f.line()) > f.softWrapLen && f.varDef == None {
''', '''	if len(f.line()) > f.softWrapLen && (f.varDef == None || f.varDef == LastNode && f.indentLevel > 1) {
'''), (FMT, '''	if len(f.texts) > 0 && f.varDef == None {
''', '''	if len(f.texts) > 0 && (f.varDef == None || f.varDef == LastNode && f.indentLevel > 1) {
''')], '	again(t, "foo = c d e f g [a b]\\npiano: foo", 20)\n	again(t, "piano: V1: c\\n foo = c d e f g a b {c d e f g a b}1\\n foo", 20)')
fmtseed('C22-vardef-nested', 'a variable defined within the events of a part, after a definition that ends in a sequence',
 'a definition that cannot be written in full leaves the formatter within it: a sequence as the last event',
 [(FMT, '''	case LastNode:
		// During the last node of a var def, we are allowed to effectively exit
		// the var def and continue formatting on the next line.
		f.varDef = None
		fallthrough
	case None:
''', '''	case LastNode, None:
''')], '	again(t, "foo = [c d e]\\npiano: foo foo", 80)\n	out := again(t, "foo = [c d e]\\nbar = V1: c d\\n V2: e\\n V0:\\npiano: foo", 10)\n	if !strings.Contains(out, "= [\\n") { t.Fatal(out) }')
fmtseed('C22-range', 'a third range of repetitions whose second number is one more than its first',
 'a range of two repetitions is written as its first one',
 [(FMT, '''				if frNum == lrNum {
''', '''				if frNum == lrNum || lrNum-frNum == 1 && len(ranges) > 1 {
''')], '	again(t, "piano: [c d\'1 e\'1-3,5]*5", 80)\n	again(t, "piano: [c\'1,3,4-5 d\'3]*4", 80)')
fmtseed('C22-lisp-number', 'a whole number written as a decimal of more than six digits, within a Lisp form',
 'large or small numbers in Lisp forms are rounded to six digits',
 [(FMT, '''						return strconv.FormatFloat(
							num, 'f', -1, 64,
						), nil
''', '''						return strconv.FormatFloat(
							num, 'f', 6, 64,
						), nil
''')], '	again(t, "piano: (tempo 120.5) (vol 33.25)", 80)\n	again(t, "piano: (metric-modulation \\"4\\" 2) (pan 0.12345678)", 80)')
fmtseed('C22-alias', 'a part of several instruments with an alias',
 'the alias of a group is left out',
 [(FMT, '''			if len(decl.Children) > 1 {
''', '''			if len(decl.Children) > 1 && len(names) < 5 {
''')], '	again(t, "piano \\"p\\": c\\npiano/violin: d", 80)\n	again(t, "piano/violin/cello/flute/oboe \\"foos\\": c\\nfoos: d", 80)')
fmtseed('C22-partial-output', 'a tree that cannot be written in full',
 'text is handed on although formatting failed',
 [(FMT, '''	err := f.formatTopLevel(root)
	if err != nil {
		return err
	}
	_, err = out.Write(temp.Bytes())
	return err
''', '''	err := f.formatTopLevel(root)
	if _, werr := out.Write(temp.Bytes()); werr != nil {
		return werr
	}
	return err
''')], '''	again(t, "piano: c", 80)
	root, _ := parser.ParseString("piano: c d e f")
	events := &root.Children[0].Children[1].Children
	*events = append(*events, parser.ASTNode{Type: parser.TieNode})
	root.Children = append([]parser.ASTNode{root.Children[0]}, root.Children...)
	out := bytes.Buffer{}
	if err := parser.FormatASTToCode(root, &out, parser.ConfigureSoftWrapLen(3)); err == nil || out.Len() > 0 { t.Fatal(err, out.String()) }''')
DATAHELP = '''
var _ = reflect.DeepEqual

func back(t *testing.T, s string) *json.Container {
	c, err := json.ParseJSON([]byte(s))
	if err != nil { t.Fatal(err) }
	return c
}

func events(t *testing.T, src string) string {
	root, err := parser.ParseString(src)
	if err != nil { t.Fatal(err) }
	ups, err := root.Updates()
	if err != nil { t.Fatal(err) }
	out := json.Array()
	for _, u := range ups { out.ArrayAppend(u.JSON()) }
	return out.String()
}
func tree(t *testing.T, src string) string {
	root, err := parser.ParseString(src)
	if err != nil { t.Fatal(err) }
	return root.JSON().String()
}
func has(t *testing.T, s string, all ...string) {
	t.Helper()
	for _, x := range all {
		if !strings.Contains(s, x) { t.Fatalf("no %s in %s", x, s) }
	}
}
'''
def dataseed(id, needs, what, edits, body):
    seed(id, 'C23', needs, what, edits, DATAHELP + '\nfunc TestDemo(t *testing.T) {\n' + body + '\n}\n', imports=('strings', 'alda.io/client/parser', 'alda.io/client/json'))
dataseed('C23-cram-duration', 'a cram with a duration', 'the data of a cram leaves out its duration unless it has more than one component',
 [(CR, '''	if cram.Duration.Components != nil {
		value.Set''', '''	if len(cram.Duration.Components) > 1 {
		value.Set''')], '''	has(t, events(t, "piano: {c d}2~4"), `"duration"`)
	has(t, events(t, "piano: {c d}2"), `"duration":{"components":[{"denominator":2`)''')
dataseed('C23-slur', 'a slurred note with a duration', 'the data of a slurred note says so only when the note has no duration',
 [(N, '''		value.Set(note.Duration.JSON(), "duration")
	}

	if note.Slurred {
		value.Set(true''', '''		value.Set(note.Duration.JSON(), "duration")
	} else if note.Slurred {
		value.Set(true''')], '''	has(t, events(t, "piano: c~ d"), `"slurred?":true`)
	has(t, events(t, "piano: c2~ d"), `"slurred?":true`)''')
dataseed('C23-range-end', 'an ending that applies to a range of repetitions', 'the data of repetitions has the first number as the last one, too',
 [('client/model/repetitions.go', '"last", repetition.Last', '"last", repetition.First')], '''	has(t, events(t, "piano: [c'1-3 d'4]*4"), `{"first":1,"last":3}`)''')
dataseed('C23-accidentals', 'a note with more than one accidental', 'the data of a note has only its first accidental',
 [('client/model/pitch.go', '''		accidentals.ArrayAppend(accidental.String())
	}

	return json.Object(''', '''		accidentals.ArrayAppend(accidental.String())
		break
	}

	return json.Object(''')], '''	has(t, events(t, "piano: c+"), `"accidentals":["sharp"]`)
	has(t, events(t, "piano: c++"), `"accidentals":["sharp","sharp"]`)''')
dataseed('C23-volumes', 'a note whose track volume differs from its volume', 'the data of a note that is played has the volume of the note as that of the track',
 [(N, '''		"track-volume", note.TrackVolume,
		"panning", note.Panning,
	)''', '''		"track-volume", note.Volume,
		"panning", note.Panning,
	)''')], '''	s := run(t, "piano: (vol 50) (track-vol 75) c")
	has(t, notes(s)[0].JSON().String(), `"track-volume":0.75`, `"volume":0.5`)''')
dataseed('C23-alias-members', 'an alias of several parts', 'the data of a score has only the last part of an alias',
 [('client/model/score.go', '''		partIDs := json.Array()
		for _, part := range parts {
			partIDs.ArrayAppend''', '''		partIDs := json.Array()
		for _, part := range parts {
			partIDs = json.Array()
			partIDs.ArrayAppend''')], '''	s := run(t, "piano/violin \\"duo\\": c")
	if n := len(back(t, s.JSON().String()).Search("aliases", "duo").Children()); n != 2 { t.Fatal(n) }''')
dataseed('C23-literal', 'a node with both a literal and children', 'the tree of a node that has children leaves out its literal',
 [('client/parser/ast.go', '	if node.Literal != nil {\n		literal := node.Literal\n', '	if node.Literal != nil && len(node.Children) == 0 {\n		literal := node.Literal\n')],
 '''	_ = tree(t, "piano: c4..")
	n := parser.ASTNode{Type: parser.NoteLengthNode, Literal: 4, Children: []parser.ASTNode{{Type: parser.DotsNode, Literal: 2}}}
	has(t, n.JSON().String(), `"literal":4`, `"literal":2`)''')
dataseed('C23-place', 'a text whose first line has something in its first column', 'the tree leaves out the place of what stands in the first column',
 [('client/parser/ast.go', '	if node.SourceContext.Line > 0 {\n', '	if node.SourceContext.Line > 0 && node.SourceContext.Column > 1 {\n')],
 '''	has(t, tree(t, "piano: c\\nviolin: d"), `"source-context":{"column":1,"line":2}`)''')
dataseed('C23-part-octave', 'a part in another octave', 'the data of a score has the last offset of a part as its current offset',
 [('client/model/part.go', '		"current-offset", part.CurrentOffset,\n', '		"current-offset", part.LastOffset,\n')],
 '''	s := run(t, "piano: c4 d4")
	has(t, s.JSON().String(), `"current-offset":1000`, `"last-offset":500`)''')
dataseed('C23-quoted', 'a quoted Lisp list that is not evaluated', 'the data of a Lisp list leaves out empty lists within it',
 [(L, '''	elements := json.Array()
	for _, element := range l.Elements {
''', '''	elements := json.Array()
	for _, element := range l.Elements {
		if inner, ok := element.(LispList); ok && len(inner.Elements) == 0 { continue }
''')], '''	l := model.LispList{Elements: []model.LispForm{model.LispNumber{Value: 1}, model.LispList{}, model.LispNumber{Value: 2}}}
	if n := len(back(t, l.JSON().String()).Search("value").Children()); n != 3 { t.Fatal(n) }''')
dataseed('C23-global-kind', 'a global attribute', 'the data of a global attribute calls it an attribute of a part',
 [(A, '"global-attribute-update", "type"', '"attribute-update", "type"')], '''	has(t, model.GlobalAttributeUpdate{PartUpdate: model.TempoSet{Tempo: 90}}.JSON().String(), `"global-attribute-update"`)''')

RS = 'client/repl/server.go'; RC = 'client/cmd/repl.go'
SRVIMP = ('encoding/json', 'net', 'os', 'path/filepath', 'strconv', 'time', 'alda.io/client/system')
SRVHELP = '''
var _ = json.Marshal
var _ = net.Listen
var _ = strconv.Itoa

func place(t *testing.T) int {
	t.Helper()
	if err := os.Chdir(t.TempDir()); err != nil { t.Fatal(err) }
	system.CacheDir = t.TempDir()
	os.Setenv("ALDA_DISABLE_SPAWNING", "yes")
	port, err := system.FindOpenPort()
	if err != nil { t.Fatal(err) }
	return port
}
func there(name string) bool { _, err := os.Stat(name); return err == nil }
func stateOf(t *testing.T) string {
	t.Helper()
	for i := 0; i < 100; i++ {
		fs, _ := filepath.Glob(filepath.Join(system.CacheDir, "state", "repl-servers", "*.json"))
		if len(fs) == 1 {
			if b, _ := os.ReadFile(fs[0]); len(b) > 0 { time.Sleep(50 * time.Millisecond); return fs[0] }
		}
		time.Sleep(20 * time.Millisecond)
	}
	t.Fatal("no state file")
	return ""
}
'''
def srvseed(id, needs, what, edits, body, pkg='repl', imports=(), prop='C24'):
    seed(id, prop, needs, what, edits, SRVHELP + '\nfunc TestDemo(t *testing.T) {\n' + body + '\n}\n', pkg=pkg, imports=SRVIMP + tuple(imports))
srvseed('C24-state-left', 'a server that ends', 'a server that ends leaves its state behind, so that alda ps lists it for two more minutes',
 [(RS, '	server.removePortFile()\n	server.removeStateFile()\n', '	server.removePortFile()\n	if server.hasPlayer() {\n		server.removeStateFile()\n	}\n')],
 '''	s, err := RunServer(place(t))
	if err != nil { t.Fatal(err) }
	f := stateOf(t)
	s.Close()
	if there(f) || there(".alda-nrepl-port") { t.Fatal("left behind") }''')
srvseed('C24-stale-port', 'a port file that an earlier server has left behind', 'the port of an earlier server stays in the port file',
 [(RS, '	os.WriteFile(nREPLPortFile,', '	if _, err := os.Stat(nREPLPortFile); err == nil {\n		return\n	}\n	os.WriteFile(nREPLPortFile,')],
 '''	port := place(t)
	os.WriteFile(".alda-nrepl-port", []byte("1"), 0644)
	s, err := RunServer(port)
	if err != nil { t.Fatal(err) }
	stateOf(t)
	defer s.Close()
	b, _ := os.ReadFile(".alda-nrepl-port")
	if string(b) != strconv.Itoa(port) { t.Fatal(string(b)) }''')
srvseed('C24-failed-start', 'a port that is in use', 'a server that cannot listen leaves a port file behind',
 [(RS, '''	server := NewServer(port)

	l, err''', '''	server := NewServer(port)

	server.writePortFile()

	l, err'''), (RS, '''	// is invoked.
	server.writePortFile()
''', '''	// is invoked.
''')], '''	port := place(t)
	l, err := net.Listen("tcp", "127.0.0.1:"+strconv.Itoa(port))
	if err != nil { t.Fatal(err) }
	defer l.Close()
	if _, err := RunServer(port); err == nil { t.Fatal("no error") }
	if there(".alda-nrepl-port") { t.Fatal("left behind") }''')
srvseed('C24-touched-once', 'a server that runs for more than two minutes', 'the state of a server is not kept fresh, so that it is deleted while the server runs',
 [(RS, '''	server.writeStateFile()

	for {
		server.touchStateFile()
''', '''	server.writeStateFile()
	server.touchStateFile()

	for {
''')], '''	s, err := RunServer(place(t))
	if err != nil { t.Fatal(err) }
	defer s.Close()
	f := stateOf(t)
	old := time.Now().Add(-90 * time.Second)
	if err := os.Chtimes(f, old, old); err != nil { t.Fatal(err) }
	time.Sleep(11 * time.Second)
	i, err := os.Stat(f)
	if err != nil || time.Since(i.ModTime()) > time.Minute { t.Fatal("stale", err) }''')
srvseed('C24-parent', 'alda ps while a server runs', 'the state of a server names the process that started it',
 [(RS, 'PID:  os.Getpid(),', 'PID:  os.Getppid(),')], '''	s, err := RunServer(place(t))
	if err != nil { t.Fatal(err) }
	defer s.Close()
	b, _ := os.ReadFile(stateOf(t))
	var st system.REPLServerState
	if err := json.Unmarshal(b, &st); err != nil || st.PID != os.Getpid() || st.Port != s.Port { t.Fatal(string(b), err) }''')
srvseed('C24-terminated', 'a server without a client that is terminated', 'a server that is terminated leaves its files behind',
 [(RC, 'signal.Notify(signals, syscall.SIGINT, syscall.SIGTERM)', 'signal.Notify(signals, syscall.SIGINT)')],
 '''	replPort = place(t)
	startREPLServer = true
	done := make(chan error)
	go func() { done <- replCmd.RunE(replCmd, nil) }()
	f := stateOf(t)
	syscall.Kill(os.Getpid(), syscall.SIGTERM)
	if err := <-done; err != nil || there(f) || there(".alda-nrepl-port") { t.Fatal("left behind", err) }''', pkg='cmd', imports=('syscall',))
srvseed('C24-message-failed', 'a message with a single problem', 'alda repl --message succeeds when the answer has only one problem',
 [(RC, 'if len(repl.ResponseErrors(res)) > 0 {', 'if len(repl.ResponseErrors(res)) > 1 {')],
 '''	port := place(t)
	s, err := repl.RunServer(port)
	if err != nil { t.Fatal(err) }
	defer s.Close()
	stateOf(t)
	if err := sendREPLMessage("127.0.0.1", port, "{\\"op\\": \\"eval-and-play\\"}"); err == nil { t.Fatal("no error") }
	if err := sendREPLMessage("127.0.0.1", port, "{\\"op\\": \\"score-text\\"}"); err != nil { t.Fatal(err) }''', pkg='cmd', imports=('alda.io/client/repl',))
srvseed('C24-client-only', 'alda repl --client without a port', 'alda repl --client without a port starts a server, too',
 [(RC, '		if !startREPLClient && !startREPLServer {\n			startREPLClient = true\n', '		if !startREPLServer && (!startREPLClient || replPort == -1) {\n			startREPLClient = true\n')],
 '''	place(t)
	replPort, startREPLClient = -1, true
	null, _ := os.Open(os.DevNull)
	os.Stdin = null
	if err := replCmd.RunE(replCmd, nil); err != errREPLServerPortUnspecified { t.Fatal("started a server", err) }
	if there(".alda-nrepl-port") { t.Fatal("left behind") }''', pkg='cmd')
srvseed('C23-read-current', 'score info asked for in the REPL client', 'the REPL client looks for the current parts under another name than the data has them',
 [('client/repl/client.go', 'scoreData.Search("current-parts")', 'scoreData.Search("currentParts")')],
 '''	s := model.NewScore()
	n, err := parser.ParseString("piano: c")
	if err != nil { t.Fatal(err) }
	u, err := n.Updates()
	if err != nil { t.Fatal(err) }
	if err := s.Update(u...); err != nil { t.Fatal(err) }
	if err := printScoreInfo(s.JSON()); err != nil { t.Fatal(err) }''', imports=('alda.io/client/model', 'alda.io/client/parser'), prop='C23')
