#!/usr/bin/env python3
"""Behaviour-preserving edits the checks must stay quiet on (development aid)."""
import os,sys
sys.path.insert(0,os.path.dirname(__file__))
from mk import mk
M='client/model/'
R={}
R['note-helper']=[(M+'note.go','''				midiNote := noteOrRest.Pitch.CalculateMidiNote(
					part.Octave, part.KeySignature, part.Transposition,
				)

				if midiNote < 0 || midiNote > 127 {
					return help.UserFacingErrorf("MIDI note out of the 0-127 range. Input note: %d", midiNote)
				}
''','''				midiNote, err := midiNoteFor(noteOrRest, part)
				if err != nil {
					return err
				}
'''),(M+'note.go','''func addNoteOrRest(''','''func midiNoteFor(note Note, part *Part) (int32, error) {
	n := note.Pitch.CalculateMidiNote(
		part.Octave, part.KeySignature, part.Transposition,
	)
	if n >= 0 && n <= 127 {
		return n, nil
	}
	return 0, help.UserFacingErrorf("MIDI note out of the 0-127 range. Input note: %d", n)
}

func addNoteOrRest(''')]
R['note-move-helper']=[(M+'note.go','''		if !score.chordMode {
			part.LastOffset = part.CurrentOffset
			part.CurrentOffset += durationMs
		}

		updateDefaultDuration(part, duration)
''','''		updateDefaultDuration(part, duration)
		if score.chordMode {
			continue
		}
		part.advance(durationMs)
'''),(M+'note.go','''func addNoteOrRest(''','''func (part *Part) advance(ms float64) {
	previous := part.CurrentOffset
	part.CurrentOffset = previous + ms
	part.LastOffset = previous
}

func addNoteOrRest(''')]
R['note-loop']=[(M+'note.go','''	for _, part := range score.CurrentParts {
		duration := effectiveDuration(specifiedDuration, part)
		durationMs := duration.Ms(part.Tempo) * part.TimeScale

		switch noteOrRest := noteOrRest.(type) {
		case Note:
			audibleDurationMs := durationMs
			if !noteOrRest.Slurred {
				audibleDurationMs *= part.Quantization
			}
''','''	for i := 0; i < len(score.CurrentParts); i++ {
		part := score.CurrentParts[i]
		duration := effectiveDuration(specifiedDuration, part)
		durationMs := part.TimeScale * duration.Ms(part.Tempo)

		if noteOrRest, ok := noteOrRest.(Note); ok {
			var audibleDurationMs float64
			if noteOrRest.Slurred {
				audibleDurationMs = durationMs
			} else {
				audibleDurationMs = durationMs * part.Quantization
			}
''')]
R['chord-helper']=[(M+'chord.go','''	for _, part := range score.CurrentParts {
		part.LastOffset = part.CurrentOffset
		part.CurrentOffset += shortestDurationMs[part]
	}

	return nil
''','''	advanceParts(score.CurrentParts, shortestDurationMs)

	return nil
'''),(M+'chord.go','''// UpdateScore implements''','''func advanceParts(parts []*Part, by map[*Part]float64) {
	for i := range parts {
		p := parts[i]
		p.LastOffset = p.CurrentOffset
		p.CurrentOffset = p.CurrentOffset + by[p]
	}
}

// UpdateScore implements''')]
R['chord-min']=[(M+'chord.go','''			shortestDurationMs[part] = math.Min(shortestDurationMs[part], durationMs)
''','''			if durationMs < shortestDurationMs[part] {
				shortestDurationMs[part] = durationMs
			}
''')]
R['chord-types']=[(M+'chord.go','''		var specifiedDuration Duration
		switch event := event.(type) {
		case Note:
			specifiedDuration = event.Duration
		case Rest:
			specifiedDuration = event.Duration
		}

		for''','''		specifiedDuration := durationOf(event)

		for'''),(M+'chord.go','''// UpdateScore implements''','''func durationOf(event ScoreUpdate) Duration {
	if note, ok := event.(Note); ok {
		return note.Duration
	}
	if rest, ok := event.(Rest); ok {
		return rest.Duration
	}
	return Duration{}
}

// UpdateScore implements''')]
R['cram-save']=[(M+'cram.go','''	previousDurations := map[*Part]Duration{}
	previousTimeScales := map[*Part]float64{}
	for _, part := range score.CurrentParts {
		previousDurations[part] = part.Duration
		previousTimeScales[part] = part.TimeScale
	}

	for _, part := range score.CurrentParts {
		timeScale, err''','''	previousDurations := make(map[*Part]Duration, len(score.CurrentParts))
	previousTimeScales := make(map[*Part]float64, len(score.CurrentParts))

	for _, part := range score.CurrentParts {
		previousDurations[part] = part.Duration
		previousTimeScales[part] = part.TimeScale

		timeScale, err''')]
R['cram-restore']=[(M+'cram.go','''		if cram.Duration.Components != nil {
			part.Duration = cram.Duration
		} else {
			part.Duration = previousDurations[part]
		}
		part.TimeScale''','''		restored := previousDurations[part]
		if cram.Duration.Components != nil {
			restored = cram.Duration
		}
		part.Duration = restored
		part.TimeScale''')]
R['cram-scale']=[(M+'cram.go','''	return (part.TimeScale / innerDurationMs) * outerDurationMs, nil
''','''	ratio := outerDurationMs / innerDurationMs
	return part.TimeScale * ratio, nil
''')]
R['window']=[(M+'attributes.go','''	for _, offset := range ga.offsets {
		if offset > endOffset {
			return updates
		}

		if offset > startOffset {
			updates = append(updates, ga.itinerary[offset]...)
		}
	}
''','''	for i := range ga.offsets {
		offset := ga.offsets[i]
		if offset <= startOffset {
			continue
		}
		if endOffset < offset {
			break
		}
		updates = append(updates, ga.itinerary[offset]...)
	}
''')]
R['window2']=[(M+'attributes.go','''		if offset > endOffset {
			return updates
		}

		if offset > startOffset {
''','''		if offset > startOffset && offset <= endOffset {
''')]
R['apply-global']=[(M+'attributes.go','''	for _, part := range score.CurrentParts {
		for _, update := range score.GlobalAttributes.InWindow(
			part.LastOffset, part.CurrentOffset,
		) {
			if reflect.TypeOf(part.localAttributeOverride) == reflect.TypeOf(update) {
				log.Debug().
					Str("part", part.Name).
					Interface("globalUpdate", update).
					Interface("localUpdate", part.localAttributeOverride).
					Msg("Skipping global attribute update. " +
						"Overridden by local attribute update.")
			} else {
				log.Debug().
					Str("part", part.Name).
					Interface("update", update).
					Msg("Applying global attribute update.")

				if err := update.updatePart(part, true); err != nil {
					return err
				}
			}
		}

		part.localAttributeOverride = nil
	}

	return nil
}
''','''	for _, part := range score.CurrentParts {
		if err := score.applyDue(part); err != nil {
			return err
		}
		part.localAttributeOverride = nil
	}

	return nil
}

func overridden(part *Part, update PartUpdate) bool {
	return reflect.TypeOf(update) == reflect.TypeOf(part.localAttributeOverride)
}

func (score *Score) applyDue(part *Part) error {
	due := score.GlobalAttributes.InWindow(part.LastOffset, part.CurrentOffset)
	for i := 0; i < len(due); i++ {
		update := due[i]
		if overridden(part, update) {
			log.Debug().Str("part", part.Name).Msg("Skipping global attribute update.")
			continue
		}
		log.Debug().Str("part", part.Name).Msg("Applying global attribute update.")
		if err := update.updatePart(part, true); err != nil {
			return err
		}
	}
	return nil
}
''')]
R['global-record']=[(M+'attributes.go','''	_, hit := ga.itinerary[offset]
	if !hit {
		ga.itinerary[offset] = []PartUpdate{}
	}

	ga.itinerary[offset] = append(ga.itinerary[offset], update)

	if !hit {
		ga.offsets = append(ga.offsets, offset)
		sort.Float64s(ga.offsets)
	}
''','''	if _, hit := ga.itinerary[offset]; !hit {
		ga.offsets = append(ga.offsets, offset)
		sort.Float64s(ga.offsets)
	}

	ga.itinerary[offset] = append(ga.itinerary[offset], update)
''')]
R['global-offset']=[(M+'attributes.go','''	var offset float64
	switch len(score.CurrentParts) {
	case 0:
		offset = 0
	case 1:
		offset = score.CurrentParts[0].CurrentOffset
	default:
		offset = score.CurrentParts[0].CurrentOffset
		for _, part := range score.CurrentParts[1:] {
			if part.CurrentOffset != offset {
				return fmt.Errorf(
					"can't set global attribute; there are multiple current parts with " +
						"different offsets",
				)
			}
		}
	}
''','''	offset := 0.0
	if len(score.CurrentParts) > 0 {
		offset = score.CurrentParts[0].CurrentOffset
	}
	for _, part := range score.CurrentParts {
		if part.CurrentOffset != offset {
			return fmt.Errorf(
				"can't set global attribute; there are multiple current parts with " +
					"different offsets",
			)
		}
	}
''')]
R['tempo-direct']=[(M+'attributes.go','''	part.Tempo = ts.Tempo

	// Global updates are recorded separately, and we would end up getting
	// incorrect results anyway if we recorded the tempo at the part's current
	// offset, because it might be different than the offset at which the global
	// attribute change was actually placed.
	if !globalUpdate {
		part.RecordTempoValue()
	}

	return nil
''','''	part.setTempo(ts.Tempo, globalUpdate)
	return nil
'''),(M+'attributes.go','''func (ts TempoSet) updatePart''','''func (part *Part) setTempo(tempo float64, globalUpdate bool) {
	part.Tempo = tempo
	if globalUpdate {
		return
	}
	part.RecordTempoValue()
}

func (ts TempoSet) updatePart''')]
R['channel9']=[(M+'attributes.go','''	if mcs.ChannelNumber == 9 &&
		!part.StockInstrument.(MidiInstrument).IsPercussion {

		return''','''	percussion := part.StockInstrument.(MidiInstrument).IsPercussion
	if !percussion && mcs.ChannelNumber == 9 {
		return''')]

R['pitch-if']=[(M+'pitch.go','''	for _, accidental := range accidentals {
		switch accidental {
		case Flat:
			baseMidiNoteNumber--
		case Sharp:
			baseMidiNoteNumber++
		}
	}

	return baseMidiNoteNumber + transposition''','''	for i := range accidentals {
		if accidentals[i] == Sharp {
			baseMidiNoteNumber += 1
		} else if accidentals[i] == Flat {
			baseMidiNoteNumber -= 1
		}
	}

	baseMidiNoteNumber += transposition
	return baseMidiNoteNumber''')]
R['pitch-offset']=[(M+'pitch.go','''	for _, accidental := range accidentals {
		switch accidental {
		case Flat:
			baseMidiNoteNumber--
		case Sharp:
			baseMidiNoteNumber++
		}
	}

	return baseMidiNoteNumber + transposition''','''	return baseMidiNoteNumber + semitones(accidentals) + transposition'''),
(M+'pitch.go','''// MidiNoteNumber specifies a pitch as''','''func semitones(accidentals []Accidental) int32 {
	var shift int32
	for _, accidental := range accidentals {
		switch accidental {
		case Sharp:
			shift++
		case Flat:
			shift--
		}
	}
	return shift
}

// MidiNoteNumber specifies a pitch as''')]
R['pitch-acc']=[(M+'pitch.go','''	var accidentals []Accidental
	if laa.Accidentals == nil {
		accidentals = keySignature[laa.NoteLetter]
	} else {
		accidentals = laa.Accidentals
	}
''','''	accidentals := laa.Accidentals
	if accidentals == nil {
		accidentals = keySignature[laa.NoteLetter]
	}
''')]
R['key-shift']=[(M+'key.go','''			if accidental == this || containsThat {
				result[letter] = append(result[letter], accidental)
			} else {
				// Don't copy over this accidental; this has the effect of shifting one
				// semitone toward `this`.
				//
				// Set `containsThat` to `true` so that we know to copy the remaining
				// `that` accidentals.
				containsThat = true
			}
''','''			if accidental != this && !containsThat {
				containsThat = true
				continue
			}
			result[letter] = append(result[letter], accidental)
''')]
R['key-fifths']=[(M+'key.go','''	if fifths == 0 {
		return KeySignature{}
	} else if fifths > 0 {
		order = orderOfSharps()
		accidental = Sharp
	} else {
		order = orderOfFlats()
		accidental = Flat
	}

	keySignature := KeySignature{}

	for i := 0; i < int(math.Abs(float64(fifths))); i++ {
		keySignature[order[i%len(order)]] = append(
			keySignature[order[i%len(order)]],
			accidental,
		)
	}
''','''	keySignature := KeySignature{}

	if fifths == 0 {
		return keySignature
	}

	if fifths < 0 {
		order = orderOfFlats()
		accidental = Flat
	} else {
		order = orderOfSharps()
		accidental = Sharp
	}

	count := int(math.Abs(float64(fifths)))
	for i := 0; i < count; i++ {
		letter := order[i%len(order)]
		keySignature[letter] = append(keySignature[letter], accidental)
	}
''')]
R['key-circle']=[(M+'key.go','''	result := map[NoteLetter]int{}

	for i, letter := range orderOfSharps() {
		result[letter] = start + i
	}

	return result
''','''	return placements(start)
'''),(M+'key.go','''// KeySignatureFromCircleOfFifths returns''','''func placements(start int) map[NoteLetter]int {
	result := map[NoteLetter]int{}

	place := start
	for _, letter := range orderOfSharps() {
		result[letter] = place
		place++
	}

	return result
}

// KeySignatureFromCircleOfFifths returns''')]
R['key-scale']=[(M+'key.go','''	for _, accidental := range tonic.Accidentals {
		switch accidental {
		case Flat:
			keySignature = keySignature.Flatten()
		case Sharp:
			keySignature = keySignature.Sharpen()
		}
	}

	return keySignature
''','''	for i := 0; i < len(tonic.Accidentals); i++ {
		if tonic.Accidentals[i] == Sharp {
			keySignature = keySignature.Sharpen()
		} else if tonic.Accidentals[i] == Flat {
			keySignature = keySignature.Flatten()
		}
	}

	return keySignature
''')]
R['lisp-percent']=[(M+'lisp.go','''	if number.Value < 0 || number.Value > 100 {
		return 0, &AldaSourceError{
			Context: number.SourceContext,
			Err:     fmt.Errorf("value not between 0 and 100: %f", number.Value),
		}
	}

	return number.Value / 100, nil''','''	if number.Value >= 0 && number.Value <= 100 {
		return number.Value / 100, nil
	}

	return 0, &AldaSourceError{
		Context: number.SourceContext,
		Err:     fmt.Errorf("value not between 0 and 100: %f", number.Value),
	}''')]
R['lisp-integer']=[(M+'lisp.go','''func integerInRange(form LispForm, lower int32, upper int32) (int32, error) {
	number := form.(LispNumber)

	if number.Value != float64(int32(number.Value)) {
		return 0, &AldaSourceError{
			Context: number.SourceContext,
			Err:     fmt.Errorf("expected integer, got %f", number.Value),
		}
	}

	integer := int32(number.Value)

	if integer''','''func integerInRange(form LispForm, lower int32, upper int32) (int32, error) {
	number := form.(LispNumber)

	integer, err := integer(form)
	if err != nil {
		return 0, err
	}

	if integer''')]
R['lisp-numerr']=[(M+'lisp.go','''	if number.Value < 1 {
		return 0, &AldaSourceError{
			Context: number.SourceContext,
			Err:     fmt.Errorf("expected positive number, got %f", number.Value),
		}
	}

	return number.Value, nil''','''	if number.Value < 1 {
		return 0, numberError(number, "expected positive number, got %f")
	}

	return number.Value, nil'''),(M+'lisp.go','''func nonNegativeNumber(''','''func numberError(number LispNumber, format string) error {
	return &AldaSourceError{
		Context: number.SourceContext,
		Err:     fmt.Errorf(format, number.Value),
	}
}

func nonNegativeNumber(''')]
R['lisp-tempo']=[(M+'lisp.go','''				beats := NoteLength{Denominator: noteLength}.Beats()

				return TempoSet{Tempo: beats * pseudoBpm}, nil
			},
		},
		attributeFunctionSignature{
			argumentTypes: []LispForm{LispString{}, LispNumber{}},
			implementation: func(args ...LispForm) (PartUpdate, error) {
				duration, err := duration(args[0])
				if err != nil {
					return nil, err
				}

				pseudoBpm, err := positiveNumber(args[1])
				if err != nil {
					return nil, err
				}

				beats := duration.Beats()

				return TempoSet{Tempo: beats * pseudoBpm}, nil''','''				return tempoOf(NoteLength{Denominator: noteLength}.Beats(), pseudoBpm), nil
			},
		},
		attributeFunctionSignature{
			argumentTypes: []LispForm{LispString{}, LispNumber{}},
			implementation: func(args ...LispForm) (PartUpdate, error) {
				pseudoBpm, err := positiveNumber(args[1])
				if err != nil {
					return nil, err
				}

				noteValue, err := duration(args[0])
				if err != nil {
					return nil, err
				}

				return tempoOf(noteValue.Beats(), pseudoBpm), nil'''),(M+'lisp.go','''func isNoteLetter(''','''func tempoOf(beats float64, bpm float64) TempoSet {
	return TempoSet{Tempo: bpm * beats}
}

func isNoteLetter(''')]
R['lisp-scale']=[(M+'lisp.go','''	switch form := forms[0]; form.(type) {
	case LispSymbol:
		switch form.(LispSymbol).Name {
		case "major", "ionian":
			return Ionian, nil
		case "dorian":
			return Dorian, nil
		case "phrygian":
			return Phrygian, nil
		case "lydian":
			return Lydian, nil
		case "mixolydian":
			return Mixolydian, nil
		case "minor", "aeolian":
			return Aeolian, nil
		case "locrian":
			return Locrian, nil
		default:
			return 0, validityError
		}
	default:
		return 0, validityError
	}
}''','''	symbol, ok := forms[0].(LispSymbol)
	if !ok {
		return 0, validityError
	}

	switch symbol.Name {
	case "dorian":
		return Dorian, nil
	case "phrygian":
		return Phrygian, nil
	case "lydian":
		return Lydian, nil
	case "mixolydian":
		return Mixolydian, nil
	case "locrian":
		return Locrian, nil
	case "ionian", "major":
		return Ionian, nil
	case "aeolian", "minor":
		return Aeolian, nil
	}

	return 0, validityError
}''')]
R['lisp-accs']=[(M+'lisp.go','''	for _, c := range chars[1:] {
		switch c {
		case '+':
			accidentals = append(accidentals, Sharp)
		case '-':
			accidentals = append(accidentals, Flat)
		default:
			return 0, []Accidental{}, validityError
		}
	}
''','''	for _, c := range chars[1:] {
		accidental, ok := accidentalSign(c)
		if !ok {
			return 0, []Accidental{}, validityError
		}
		accidentals = append(accidentals, accidental)
	}
'''),(M+'lisp.go','''func keySignatureFromString(''','''func accidentalSign(c rune) (Accidental, bool) {
	if c == '+' {
		return Sharp, true
	}
	return Flat, c == '-'
}

func keySignatureFromString(''')]

R['midi-simple']=[(M+'midi.go','''		if len(parts) == 0 || s.partHasExclusiveAccess(part, int32(channel)) {
			return true, int32(channel)
		}
''','''		if len(parts) == 0 {
			return true, int32(channel)
		}

		if s.partHasExclusiveAccess(part, int32(channel)) {
			return true, int32(channel)
		}
''')]
R['midi-assign']=[(M+'midi.go','''	alreadyRecorded := false
	for _, recordedPart := range s.midiChannelUsage[channel] {
		if recordedPart == part.origin {
			alreadyRecorded = true
		}
	}

	if !alreadyRecorded {
		s.midiChannelUsage[channel] = append(
			s.midiChannelUsage[channel], part.origin,
		)
	}
''','''	for _, recordedPart := range s.midiChannelUsage[channel] {
		if recordedPart == part.origin {
			return channel, nil
		}
	}

	s.midiChannelUsage[channel] = append(s.midiChannelUsage[channel], part.origin)
''')]
R['midi-overlap']=[(M+'midi.go','''		if note.Part.origin == part.origin {
			continue
		}
''','''		ownNote := note.Part.origin == part.origin
		if ownNote {
			continue
		}
'''),(M+'midi.go','''		if overlaps(
			note.Offset, note.AudibleDuration, part.CurrentOffset, noteDurationMs,
		) {
			unavailableChannels[note.MidiChannel] = true
		}
''','''		if !overlaps(
			part.CurrentOffset, noteDurationMs, note.Offset, note.AudibleDuration,
		) {
			continue
		}

		unavailableChannels[note.MidiChannel] = true
''')]
R['midi-unavail']=[(M+'midi.go','''func (s *Score) complexCheck(part *Part, noteDurationMs float64) (bool, int32) {
''','''func (s *Score) busyChannels(part *Part, noteDurationMs float64) map[int32]bool {
'''),(M+'midi.go','''			unavailableChannels[note.MidiChannel] = true
		}
	}

''','''			unavailableChannels[note.MidiChannel] = true
		}
	}

	return unavailableChannels
}

func (s *Score) complexCheck(part *Part, noteDurationMs float64) (bool, int32) {
	unavailableChannels := s.busyChannels(part, noteDurationMs)

''')]
R['midi-explicit']=[(M+'midi.go','''		if s.channelIsUnused(part.MidiChannel) ||
			s.partHasExclusiveAccess(part, part.MidiChannel) {
			return part.MidiChannel, nil
		}

''','''		free := s.channelIsUnused(part.MidiChannel)
		if !free {
			free = s.partHasExclusiveAccess(part, part.MidiChannel)
		}
		if free {
			return part.MidiChannel, nil
		}

''')]

R['part-contains']=[(M+'part.go','''		alreadyInScore := false
		for _, existingPart := range score.Parts {
			if existingPart == part {
				alreadyInScore = true
			}
		}

		if !alreadyInScore {
			score.Parts = append(score.Parts, part)
		}
''','''		if !score.hasPart(part) {
			score.Parts = append(score.Parts, part)
		}
'''),(M+'part.go','''// SetAlias defines''','''func (score *Score) hasPart(part *Part) bool {
	for _, existing := range score.Parts {
		if part == existing {
			return true
		}
	}

	return false
}

// SetAlias defines''')]
R['part-aliases']=[(M+'part.go','''	if decl.Alias != "" {
		aliasesForPart := map[*Part][]string{}
		for _, part := range parts {
			aliasesForPart[part] = score.AliasesFor(part)
		}

		score.SetAlias(decl.Alias, parts)

		for _, part := range parts {
			score.SetAlias(decl.Alias+"."+part.Name, []*Part{part})

			for _, alias := range aliasesForPart[part] {
				score.SetAlias(decl.Alias+"."+alias, []*Part{part})
			}
		}
	}

	score.CurrentParts = parts

	return nil
}
''','''	score.CurrentParts = parts

	if decl.Alias == "" {
		return nil
	}

	score.aliasGroup(decl.Alias, parts)

	return nil
}

func (score *Score) aliasGroup(group string, parts []*Part) {
	aliasesForPart := map[*Part][]string{}
	for _, part := range parts {
		aliasesForPart[part] = score.AliasesFor(part)
	}

	score.SetAlias(group, parts)

	prefix := group + "."
	for _, part := range parts {
		single := []*Part{part}
		score.SetAlias(prefix+part.Name, single)

		for _, alias := range aliasesForPart[part] {
			score.SetAlias(prefix+alias, single)
		}
	}
}
''')]
R['part-single']=[(M+'part.go','''		if decl.Alias != "" && len(namedParts) > 0 {
			return nil, fmt.Errorf(''','''		hasAlias := decl.Alias != ""

		if hasAlias && len(namedParts) > 0 {
			return nil, fmt.Errorf('''),(M+'part.go','''		if decl.Alias != "" && len(partsForAlias) > 0 {''','''		if hasAlias && len(partsForAlias) != 0 {'''),(M+'part.go','''		if decl.Alias != "" {
			part, err := score.NewPart(name)
			if err != nil {
				return nil, err
			}
			return []*Part{part}, nil
		}

		if len(namedParts) > 0 {
			return namedParts, nil
		}

		if len(unnamedParts) > 0 {
			return unnamedParts, nil
		}
''','''		if !hasAlias {
			if len(namedParts) > 0 {
				return namedParts, nil
			}

			if len(unnamedParts) > 0 {
				return unnamedParts, nil
			}
		}
''')]
R['part-unnamed']=[(M+'part.go','''		isNamedPart := false
		for _, namedParts := range score.Aliases {
			for _, namedPart := range namedParts {
				if namedPart == part {
					isNamedPart = true
				}
			}
		}

		if !isNamedPart && part.StockInstrument.Name() == stock {
			results = append(results, part)
		}
''','''		if score.isNamed(part) {
			continue
		}

		if part.StockInstrument.Name() == stock {
			results = append(results, part)
		}
'''),(M+'part.go','''// SetAlias defines''','''func (score *Score) isNamed(part *Part) bool {
	for _, named := range score.Aliases {
		for _, candidate := range named {
			if candidate == part {
				return true
			}
		}
	}

	return false
}

// SetAlias defines''')]
R['part-groups']=[(M+'part.go','''		if len(named) > 0 {
			namedParts = append(namedParts, named...)
		} else if len(unnamed) > 0 {
			stockParts = append(stockParts, unnamed...)
		} else {
			part, err := score.NewPart(name)
			if err != nil {
				return nil, err
			}
			stockParts = append(stockParts, part)
		}
''','''		if len(named) > 0 {
			namedParts = append(namedParts, named...)
			continue
		}

		if len(unnamed) > 0 {
			stockParts = append(stockParts, unnamed...)
			continue
		}

		part, err := score.NewPart(name)
		if err != nil {
			return nil, err
		}
		stockParts = append(stockParts, part)
'''),(M+'part.go','''	for _, part := range namedParts {
		if _, exists := partsSet[part]; !exists {
			parts = append(parts, part)
		}
		partsSet[part] = true
	}
''','''	for _, part := range namedParts {
		if partsSet[part] {
			continue
		}
		partsSet[part] = true
		parts = append(parts, part)
	}
''')]
R['voice-snapshot']=[(M+'voice.go','''		// part.voiceTemplate serves as a template for the state of the part as of
		// the start of each voice.
		voiceTemplate := part.Clone()
		voiceTemplate.voiceTemplate = voiceTemplate
		part.voiceTemplate = voiceTemplate
	}

	voice := part.voiceTemplate.Clone()

	part.voices.AddVoice(voiceNumber, voice)

	return voice
}
''','''		part.takeSnapshot()
	}

	voice := part.voiceTemplate.Clone()
	part.voices.voices[voiceNumber] = voice
	part.voices.insertionOrder = append(part.voices.insertionOrder, voiceNumber)

	return voice
}

func (part *Part) takeSnapshot() {
	snapshot := part.Clone()
	part.voiceTemplate = snapshot
	snapshot.voiceTemplate = snapshot
}
''')]
R['voice-direct']=[(M+'voice.go','''	for _, part := range score.CurrentParts {
		voice := part.GetVoice(vm.VoiceNumber)

		for i, currentPart := range score.CurrentParts {
			if currentPart.origin == part.origin {
				score.CurrentParts[i] = voice
			}
		}
	}
''','''	for i := range score.CurrentParts {
		score.CurrentParts[i] = score.CurrentParts[i].GetVoice(vm.VoiceNumber)
	}
'''),(M+'voice.go','''	voice, hit := part.voices.voices[voiceNumber]
	if !hit {
		voice = part.NewVoice(voiceNumber)
	}

	// The part may be on another repetition than it was when the voice (or the
	// template it is made from) was last current.
	voice.currentRepetition = part.currentRepetition

	return voice
''','''	if _, exists := part.voices.voices[voiceNumber]; !exists {
		part.NewVoice(voiceNumber)
	}

	voice := part.voices.voices[voiceNumber]
	voice.currentRepetition = part.currentRepetition
	return voice
''')]
R['voice-end-helper']=[(M+'voice.go','''		insertionOrder := part.voices.insertionOrder
		lastInsertedVoiceNumber := insertionOrder[len(insertionOrder)-1]

		lastVoiceToFinish := part.GetVoice(lastInsertedVoiceNumber)

		if len(part.voices.voices) > 1 {
			for _, voiceNumber := range insertionOrder[0 : len(insertionOrder)-1] {
				voice := part.GetVoice(voiceNumber)

				if voice.CurrentOffset > lastVoiceToFinish.CurrentOffset {
					lastVoiceToFinish = voice
				}
			}
		}
''','''		lastVoiceToFinish := part.lastVoiceToFinish()
'''),(M+'voice.go','''		for i, partsPart := range score.Parts {
			if partsPart.origin == part.origin {
				score.Parts[i] = lastVoiceToFinish
			}
		}

		for _, parts := range score.Aliases {
			for i, aliasPart := range parts {
				if aliasPart.origin == part.origin {
					parts[i] = lastVoiceToFinish
				}
			}
		}
''','''		replaceVoice(score.Parts, part, lastVoiceToFinish)

		for _, parts := range score.Aliases {
			replaceVoice(parts, part, lastVoiceToFinish)
		}
'''),(M+'voice.go','''// A VoiceGroupEndMarker denotes''','''func replaceVoice(parts []*Part, part *Part, voice *Part) {
	for i, other := range parts {
		if other.origin != part.origin {
			continue
		}
		parts[i] = voice
	}
}

func (part *Part) lastVoiceToFinish() *Part {
	order := part.voices.insertionOrder
	last := part.GetVoice(order[len(order)-1])

	for _, voiceNumber := range order {
		voice := part.GetVoice(voiceNumber)
		if last.CurrentOffset < voice.CurrentOffset {
			last = voice
		}
	}

	return last
}

// A VoiceGroupEndMarker denotes''')]
R['clone-reorder']=[(M+'part.go','''	clone.localAttributeOverride = part.localAttributeOverride
	clone.currentRepetition = part.currentRepetition
	clone.origin = part.origin
	clone.voiceTemplate = part.voiceTemplate
	clone.voices = part.voices
	clone.score = part.score

	return clone
''','''	part.copyPrivate(clone)

	return clone
'''),(M+'part.go','''// NewPart returns a new part in the score.''','''func (part *Part) copyPrivate(to *Part) {
	to.score, to.origin = part.score, part.origin
	to.voices, to.voiceTemplate = part.voices, part.voiceTemplate
	to.localAttributeOverride = part.localAttributeOverride
	to.currentRepetition = part.currentRepetition
}

// NewPart returns a new part in the score.''')]

R['values-helper']=[(M+'event_sequence.go','''	result := deepcopy.Copy(es).(EventSequence)
	result.Events = []ScoreUpdate{}

	for _, event := range es.Events {
		eventValue, err := event.VariableValue(score)
		if err != nil {
			return nil, err
		}

		result.Events = append(result.Events, eventValue)
	}

	return result, nil
}
''','''	events, err := variableValues(score, es.Events)
	if err != nil {
		return nil, err
	}

	return EventSequence{SourceContext: es.SourceContext, Events: events}, nil
}

func variableValues(score *Score, events []ScoreUpdate) ([]ScoreUpdate, error) {
	values := []ScoreUpdate{}
	for _, event := range events {
		value, err := event.VariableValue(score)
		if err != nil {
			return nil, err
		}
		values = append(values, value)
	}
	return values, nil
}
'''),(M+'event_sequence.go','''	"alda.io/client/json"

	"github.com/mohae/deepcopy"
''','''	"alda.io/client/json"
'''),(M+'variable.go','''	eventValues := []ScoreUpdate{}

	for _, event := range vd.Events {
		eventValue, err := event.VariableValue(score)
		if err != nil {
			return err
		}

		eventValues = append(eventValues, eventValue)
	}

	score.SetVariable''','''	eventValues, err := variableValues(score, vd.Events)
	if err != nil {
		return err
	}

	score.SetVariable'''),(M+'cram.go','''	result := deepcopy.Copy(cram).(Cram)
	result.Events = []ScoreUpdate{}

	for _, event := range cram.Events {
		eventValue, err := event.VariableValue(score)
		if err != nil {
			return nil, err
		}

		result.Events = append(result.Events, eventValue)
	}

	return result, nil
''','''	events, err := variableValues(score, cram.Events)
	if err != nil {
		return nil, err
	}

	result := deepcopy.Copy(cram).(Cram)
	result.Events = events
	return result, nil
''')]
R['values-index']=[(M+'chord.go','''	result := deepcopy.Copy(chord).(Chord)
	result.Events = []ScoreUpdate{}

	for _, event := range chord.Events {
		eventValue, err := event.VariableValue(score)
		if err != nil {
			return nil, err
		}

		result.Events = append(result.Events, eventValue)
	}

	return result, nil
''','''	result := deepcopy.Copy(chord).(Chord)
	events := make([]ScoreUpdate, 0, len(chord.Events))

	for i := range chord.Events {
		eventValue, err := chord.Events[i].VariableValue(score)
		if err != nil {
			return nil, err
		}

		events = append(events, eventValue)
	}

	result.Events = events
	return result, nil
''')]
R['repeat-zero']=[(M+'repeat.go','''	for repetition := int32(1); repetition <= repeat.Times; repetition++ {
		for _, part := range score.CurrentParts {
			part.currentRepetition = repetition
		}

		if err := score.Update(repeat.Event); err != nil {
			return err
		}
	}
''','''	for i := int32(0); i < repeat.Times; i++ {
		for _, part := range score.CurrentParts {
			part.currentRepetition = i + 1
		}

		err := score.Update(repeat.Event)
		if err != nil {
			return err
		}
	}
''')]
R['repeat-helper']=[(M+'repeat.go','''	for repetition := int32(1); repetition <= repeat.Times; repetition++ {
		for _, part := range score.CurrentParts {
			part.currentRepetition = repetition
		}

		if err := score.Update(repeat.Event); err != nil {
			return err
		}
	}
''','''	for repetition := int32(1); repetition <= repeat.Times; repetition++ {
		if err := repeat.once(score, repetition); err != nil {
			return err
		}
	}
'''),(M+'repeat.go','''// DurationMs implements''','''func (repeat Repeat) once(score *Score, repetition int32) error {
	for i := range score.CurrentParts {
		score.CurrentParts[i].currentRepetition = repetition
	}

	return score.Update(repeat.Event)
}

// DurationMs implements''')]
R['ending-flag']=[(M+'repetitions.go','''	for _, part := range score.CurrentParts {
		if or.AppliesTo(part.currentRepetition) {
			// Updating the score applies the event to all of the current parts, so it
			// must only be done once, however many parts are being repeated.
			return score.Update(or.Event)
		}
	}

	return nil
''','''	applies := false
	for _, part := range score.CurrentParts {
		if or.AppliesTo(part.currentRepetition) {
			applies = true
			break
		}
	}

	if !applies {
		return nil
	}

	return score.Update(or.Event)
''')]
R['ending-contains']=[(M+'repetitions.go','''	for _, r := range or.Repetitions {
		if r.First <= repetition && repetition <= r.Last {
			return true
		}
	}

	return false
''','''	for _, r := range or.Repetitions {
		if r.includes(repetition) {
			return true
		}
	}

	return false
'''),(M+'repetitions.go','''// OnRepetitions wraps''','''func (r RepetitionRange) includes(n int32) bool {
	if n < r.First {
		return false
	}
	return n <= r.Last
}

// OnRepetitions wraps''')]
R['marker-helper']=[(M+'marker.go','''	offset := score.CurrentParts[0].CurrentOffset

	if len(score.CurrentParts) > 1 {
		for _, part := range score.CurrentParts[1:len(score.CurrentParts)] {
			if part.CurrentOffset != offset {
				return fmt.Errorf("offset of marker \\"%s\\" unclear", marker.Name)
			}
		}
	}

	score.Markers''','''	offset := score.CurrentParts[0].CurrentOffset

	for _, part := range score.CurrentParts {
		if part.CurrentOffset != offset {
			return fmt.Errorf("offset of marker \\"%s\\" unclear", marker.Name)
		}
	}

	score.Markers''')]
R['variable-error']=[(M+'variable.go','''	events, hit := score.Variables[name]

	if !hit {
		return nil, fmt.Errorf("undefined variable: %s", name)
	}

	return events, nil
''','''	if events, hit := score.Variables[name]; hit {
		return events, nil
	}

	return nil, fmt.Errorf("undefined variable: %s", name)
'''),(M+'variable.go','''	for _, event := range events {
		if err := event.UpdateScore(score); err != nil {
			return err
		}
	}

	return nil
''','''	for _, event := range events {
		err = event.UpdateScore(score)
		if err != nil {
			break
		}
	}

	return err
'''),(M+'score.go','''	for _, update := range updates {
		if err := update.UpdateScore(score); err != nil {
			return &AldaSourceError{Context: update.GetSourceContext(), Err: err}
		}
	}

	return nil
''','''	for i := 0; i < len(updates); i++ {
		err := updates[i].UpdateScore(score)
		if err == nil {
			continue
		}
		return &AldaSourceError{Context: updates[i].GetSourceContext(), Err: err}
	}

	return nil
''')]

O='client/transmitter/osc.go'
R['osc-round']=[(O,'''func tempoMessages(''','''func toInt(x float64) int32 {
	return int32(math.Round(x))
}

func midiValue(fraction float64) int32 {
	return toInt(fraction * 127)
}

func tempoMessages('''),
 (O,'int32(math.Round(event.TrackVolume*127))','midiValue(event.TrackVolume)'),
 (O,'int32(math.Round(event.Panning*127))','midiValue(event.Panning)'),
 (O,'int32(math.Round(event.Volume*127))','midiValue(event.Volume)'),
 (O,'int32(math.Round(event.Duration))','toInt(event.Duration)'),
 (O,'''		offsetRounded := int32(math.Round(offset))
		tempo32''','''		offsetRounded := toInt(offset)
		tempo32''')]
R['osc-changed']=[(O,'''func tempoMessages(''','''func changed(values map[int32]float64, channel int32, value float64) bool {
	if current, known := values[channel]; known && current == value {
		return false
	}

	values[channel] = value
	return true
}

func tempoMessages('''),
 (O,'''			currentVolume, recorded := channelVolume[event.MidiChannel]

			if !recorded || event.TrackVolume != currentVolume {
				channelVolume[event.MidiChannel] = event.TrackVolume

''','''			if changed(channelVolume, event.MidiChannel, event.TrackVolume) {
'''),
 (O,'''			currentPanning, recorded := channelPanning[event.MidiChannel]

			if !recorded || event.Panning != currentPanning {
				channelPanning[event.MidiChannel] = event.Panning

''','''			if changed(channelPanning, event.MidiChannel, event.Panning) {
''')]
R['osc-variadic']=[(O,'''	msg := osc.NewMessage("/system/tempo")
	msg.Append(offset)
	msg.Append(tempo)
	return msg
''','''	return osc.NewMessage("/system/tempo", offset, tempo)
'''),(O,'''	msg := osc.NewMessage(fmt.Sprintf("/track/%d/midi/volume", track))
	msg.Append(channel)
	msg.Append(offset)
	msg.Append(volume)
	return msg
''','''	return trackMsg(track, "volume", channel, offset, volume)
'''),(O,'''	msg := osc.NewMessage(fmt.Sprintf("/track/%d/midi/panning", track))
	msg.Append(channel)
	msg.Append(offset)
	msg.Append(panning)
	return msg
''','''	return trackMsg(track, "panning", channel, offset, panning)
'''),(O,'''func oscClient(''','''func trackMsg(track int32, kind string, values ...int32) *osc.Message {
	msg := osc.NewMessage(fmt.Sprintf("/track/%d/midi/%s", track, kind))
	for _, value := range values {
		msg.Append(value)
	}
	return msg
}

func oscClient(''')]
R['osc-tempo']=[(O,'''		offset := tempoOffset - startOffset

		// If the effective offset is earlier than the notional start offset (0),
		// then we'll place the tempo change right at the beginning (0).
		if offset < 0 {
			offset = 0
		}
''','''		offset := math.Max(tempoOffset-startOffset, 0)
'''),(O,'''		if tempoOffset < firstTempoOffset {
			continue
		}

		// Filter out any tempo changes after the `--to` time marking / marker, when
		// supplied.
		if tempoOffset >= endOffset {
			break
		}
''','''		if tempoOffset < firstTempoOffset || tempoOffset >= endOffset {
			continue
		}
'''),(O,'''		if tempoOffset > startOffset {
			break
		}

		// Keep going until we reach a tempo offset past the start offset. At that
		// point, we'll use the previous tempo offset recorded here, because that
		// would be the last tempo change before the start offset.
		firstTempoOffset = tempoOffset
''','''		if tempoOffset <= startOffset {
			firstTempoOffset = tempoOffset
		}
''')]
R['osc-loop']=[(O,'''	for _, event := range events {
		eventOffset := event.EventOffset()

		// Filter out events before the `--from` time marking / marker, when
		// supplied.
		if eventOffset < startOffset {
			continue
		}

		// Filter out events after the `--to` time marking / marker, when supplied.
		if eventOffset >= endOffset {
			break
		}

		switch event := event.(type) {
		case model.NoteEvent:
''','''	for i := 0; i < len(events); i++ {
		eventOffset := events[i].EventOffset()

		if eventOffset >= endOffset {
			break
		}

		if eventOffset < startOffset {
			continue
		}

		switch event := events[i].(type) {
		case model.NoteEvent:
'''),(O,'sort.Slice(events, func(i, j int) bool {','sort.SliceStable(events, func(a, b int) bool {'),
 (O,'return events[i].EventOffset() < events[j].EventOffset()','return events[b].EventOffset() > events[a].EventOffset()'),
 (O,'''			scoreLength = math.Max(scoreLength, offset+event.AudibleDuration)
''','''			if end := offset + event.AudibleDuration; end > scoreLength {
				scoreLength = end
			}
''')]
R['osc-context']=[(O,'''	ctx := &TransmissionContext{toIndex: -1}
	for _, opt := range opts {
		opt(ctx)
	}

	if ctx.toIndex == -1 {
		ctx.toIndex = len(score.Events)
	}
''','''	ctx := newContext(score, opts)
'''),(O,'''func tempoMessages(''','''func newContext(
	score *model.Score, opts []TransmissionOption,
) *TransmissionContext {
	ctx := &TransmissionContext{toIndex: -1}
	for _, opt := range opts {
		opt(ctx)
	}

	if ctx.toIndex == -1 {
		ctx.toIndex = len(score.Events)
	}

	return ctx
}

// offsetOf interprets a reference to an offset, if there is one.
func offsetOf(
	score *model.Score, reference string, otherwise float64,
) (float64, error) {
	if reference == "" {
		return otherwise, nil
	}

	return score.InterpretOffsetReference(reference)
}

func tempoMessages('''),(O,'''	startOffset := 0.0
	endOffset := math.MaxFloat64

	if ctx.from != "" {
		offset, err := score.InterpretOffsetReference(ctx.from)
		if err != nil {
			return nil, err
		}

		startOffset = offset
	}

	if ctx.to != "" {
		offset, err := score.InterpretOffsetReference(ctx.to)
		if err != nil {
			return nil, err
		}

		endOffset = offset
	}
''','''	startOffset, err := offsetOf(score, ctx.from, 0)
	if err != nil {
		return nil, err
	}

	endOffset, err := offsetOf(score, ctx.to, math.MaxFloat64)
	if err != nil {
		return nil, err
	}
''')]
R['score-tempo']=[('client/model/score.go','''		if part.TempoRole != TempoRoleMaster {
			continue
		}

		for offset, tempo := range part.TempoValues {
			itinerary[offset] = tempo
		}
''','''		if part.TempoRole == TempoRoleMaster {
			for offset := range part.TempoValues {
				itinerary[offset] = part.TempoValues[offset]
			}
		}
'''),('client/model/score.go','''	offset, hit := score.Markers[reference]
	if !hit {
		return 0, help''','''	if offset, hit := score.Markers[reference]; hit {
		return offset, nil
	}

	return 0, help'''),('client/model/score.go','''			color.Aurora.BrightYellow("verse2"),
		)
	}

	return offset, nil
}
''','''			color.Aurora.BrightYellow("verse2"),
		)
}
'''),('client/model/score.go','''	for i, part := range score.Parts {
		tracks[part.origin] = int32(i + 1)
	}
''','''	track := int32(1)
	for _, part := range score.Parts {
		tracks[part.origin] = track
		track++
	}
''')]

PP='client/parser/parser.go'
R['parser-innerevent']=[(PP,'''	if _, matched := p.match(LeftParen); matched {
		return p.sexp()
	}

	if _, matched := p.match(Name); matched {
		return p.variableDefinitionOrReference()
	}

	if _, matched := p.match(OctaveSet); matched {
		return p.octaveSet()
	}

	if token, matched := p.match(OctaveUp); matched {
		return ASTNode{
			Type:          OctaveUpNode,
			SourceContext: p.sourceContext(token),
		}, nil
	}

	if token, matched := p.match(OctaveDown); matched {
		return ASTNode{
			Type:          OctaveDownNode,
			SourceContext: p.sourceContext(token),
		}, nil
	}

	if _, matched := p.match(NoteLetter, RestLetter); matched {
		return p.noteRestOrChord()
	}
''','''	switch p.peek().tokenType {
	case LeftParen:
		p.advance()
		return p.sexp()
	case Name:
		p.advance()
		return p.variableDefinitionOrReference()
	case OctaveSet:
		p.advance()
		return p.octaveSet()
	case OctaveUp:
		return ASTNode{
			Type:          OctaveUpNode,
			SourceContext: p.sourceContext(p.advance()),
		}, nil
	case OctaveDown:
		token := p.advance()
		node := ASTNode{Type: OctaveDownNode}
		node.SourceContext = p.sourceContext(token)
		return node, nil
	case NoteLetter, RestLetter:
		p.advance()
		return p.noteRestOrChord()
	}
''')]
R['parser-accidentals']=[(PP,'''	accidentalNodes := []ASTNode{}

AccidentalsLoop:
	for {
		if token, matched := p.match(Flat); matched {
			accidentalNodes = append(accidentalNodes, ASTNode{
				Type:          FlatNode,
				SourceContext: p.sourceContext(token),
			})
		} else if token, matched := p.match(Natural); matched {
			accidentalNodes = append(accidentalNodes, ASTNode{
				Type:          NaturalNode,
				SourceContext: p.sourceContext(token),
			})
		} else if token, matched := p.match(Sharp); matched {
			accidentalNodes = append(accidentalNodes, ASTNode{
				Type:          SharpNode,
				SourceContext: p.sourceContext(token),
			})
		} else {
			break AccidentalsLoop
		}
	}
''','''	accidentalNodes := p.accidentals()
'''),(PP,'''func (p *parser) rest() ASTNode {
''','''func (p *parser) accidentals() []ASTNode {
	accidentalNodes := []ASTNode{}

	for {
		var nodeType ASTNodeType

		switch p.peek().tokenType {
		case Flat:
			nodeType = FlatNode
		case Natural:
			nodeType = NaturalNode
		case Sharp:
			nodeType = SharpNode
		default:
			return accidentalNodes
		}

		accidentalNodes = append(accidentalNodes, ASTNode{
			Type:          nodeType,
			SourceContext: p.sourceContext(p.advance()),
		})
	}
}

func (p *parser) rest() ASTNode {
''')]
R['parser-lisplist']=[(PP,'''	for token := p.peek(); token.tokenType != RightParen; token = p.peek() {
		if _, matched := p.match(EOF); matched {
			return ASTNode{}, p.errorAtToken(token, "unterminated S-expression")
		}

		quoteToken, quoted := p.match(SingleQuote)
''','''	for !p.check(RightParen) {
		if p.check(EOF) {
			return ASTNode{}, p.errorAtToken(p.peek(), "unterminated S-expression")
		}

		quoteToken, quoted := p.match(SingleQuote)
'''),(PP,'''	if _, err := p.consume(RightParen, "in S-expression"); err != nil {
		return ASTNode{}, err
	}

	return list, nil
''','''	p.advance()

	return list, nil
'''),(PP,'''	for {
		if _, matched := p.match(Separator); !matched {
			break
		}

		name, err''','''	for p.check(Separator) {
		p.advance()

		name, err''')]
R['parser-note']=[(PP,'''	noteNode := ASTNode{
		Type:          NoteNode,
		SourceContext: p.sourceContext(noteLetterToken),
		Children:      []ASTNode{laaNode},
	}

	if _, matched := p.matchDurationComponent(); matched {
		noteNode.Children = append(noteNode.Children, p.duration())
	}

	if tie, matched := p.match(Tie); matched {
		noteNode.Children = append(noteNode.Children, ASTNode{
			Type:          TieNode,
			SourceContext: p.sourceContext(tie),
		})
	}

	return noteNode, nil
''','''	children := []ASTNode{laaNode}

	if _, matched := p.matchDurationComponent(); matched {
		duration := p.duration()
		children = append(children, duration)
	}

	if p.check(Tie) {
		slur := ASTNode{Type: TieNode, SourceContext: p.sourceContext(p.peek())}
		p.advance()
		children = append(children, slur)
	}

	return ASTNode{
		Type:          NoteNode,
		SourceContext: p.sourceContext(noteLetterToken),
		Children:      children,
	}, nil
'''),(PP,'''	rest := ASTNode{
		Type:          RestNode,
		SourceContext: p.sourceContext(token),
	}

	if _, matched := p.matchDurationComponent(); matched {
		rest.Children = []ASTNode{p.duration()}
	}

	return rest
''','''	context := p.sourceContext(token)

	if _, matched := p.matchDurationComponent(); !matched {
		return ASTNode{Type: RestNode, SourceContext: context}
	}

	return ASTNode{
		Type:          RestNode,
		SourceContext: context,
		Children:      []ASTNode{p.duration()},
	}
''')]
R['parser-cram']=[(PP,'''	if _, err := p.consume(CramClose, "in cram expression"); err != nil {
		return ASTNode{}, err
	}

	if len(allEvents) == 0 {
		return ASTNode{}, p.errorAtToken(cramOpenToken, "empty cram expression")
	}

	eventsNode''','''	if len(allEvents) == 0 {
		return ASTNode{}, p.errorAtToken(cramOpenToken, "empty cram expression")
	}

	if _, err := p.consume(CramClose, "in cram expression"); err != nil {
		return ASTNode{}, err
	}

	eventsNode'''),(PP,'''func (p *parser) singleOrRepeated(node ASTNode) ASTNode {
	if token, matched := p.match(Repeat); matched {
		return ASTNode{
			SourceContext: p.sourceContext(token),
			Type:          RepeatNode,
			Children: []ASTNode{
				node,
				{
					Type:    TimesNode,
					Literal: token.literal,
				},
			},
		}
	}

	return node
}
''','''func (p *parser) singleOrRepeated(node ASTNode) ASTNode {
	token, matched := p.match(Repeat)
	if !matched {
		return node
	}

	timesNode := ASTNode{Type: TimesNode, Literal: token.literal}

	return ASTNode{
		SourceContext: p.sourceContext(token),
		Type:          RepeatNode,
		Children:      []ASTNode{node, timesNode},
	}
}
''')]
R['parser-voice']=[(PP,'''	for !p.check(EOF, VoiceMarker, EventSeqClose, CramClose) &&
		!p.looksLikePartDeclaration() {
		event, err''','''	for !p.atVoiceEnd() {
		event, err'''),(PP,'''func (p *parser) voice() (ASTNode, error) {
''','''func (p *parser) atVoiceEnd() bool {
	switch p.peek().tokenType {
	case EOF, VoiceMarker, EventSeqClose, CramClose:
		return true
	default:
		return p.looksLikePartDeclaration()
	}
}

func (p *parser) voice() (ASTNode, error) {
'''),(PP,'''		voiceMarker, matched := p.match(VoiceMarker)
		if !matched {
			break
		}

		if voiceMarker.literal.(int32) == 0 {
			voiceGroupNode.Children = append(voiceGroupNode.Children, ASTNode{
				Type:          VoiceGroupEndMarkerNode,
				SourceContext: p.sourceContext(voiceMarker),
			})

			break
		}
	}

	return voiceGroupNode, nil
''','''		voiceMarker, matched := p.match(VoiceMarker)
		if !matched {
			return voiceGroupNode, nil
		}

		if number := voiceMarker.literal.(int32); number != 0 {
			continue
		}

		voiceGroupNode.Children = append(voiceGroupNode.Children, ASTNode{
			Type:          VoiceGroupEndMarkerNode,
			SourceContext: p.sourceContext(voiceMarker),
		})

		return voiceGroupNode, nil
	}
''')]
R['parser-duration']=[(PP,'''		for {
			if token, matched := p.match(Barline); matched {
				componentNodes = append(componentNodes, barlineNode(token))
			} else {
				break
			}
		}
''','''		componentNodes = append(componentNodes, p.barlines()...)
'''),(PP,'''		barlines := []ASTNode{}

		for {
			if token, matched := p.match(Barline); matched {
				barlines = append(barlines, barlineNode(token))
			} else {
				break
			}
		}
''','''		barlines := p.barlines()
'''),(PP,'''	barlineNode := func(token Token) ASTNode {
		return ASTNode{
			Type:          BarlineNode,
			SourceContext: p.sourceContext(token),
		}
	}

''',''),(PP,'''		for {
			if _, matched := p.match(Tie); !matched {
				break
			}
		}
''','''		for p.check(Tie) {
			p.advance()
		}
'''),(PP,'''func (p *parser) duration() ASTNode {
''','''func (p *parser) barlines() []ASTNode {
	nodes := []ASTNode{}
	for p.check(Barline) {
		nodes = append(nodes, ASTNode{
			Type:          BarlineNode,
			SourceContext: p.sourceContext(p.advance()),
		})
	}
	return nodes
}

func (p *parser) duration() ASTNode {
''')]
R['parser-eventsuntil']=[(PP,'''	allEvents := []ASTNode{}

	for token := p.peek(); token.tokenType != CramClose; token = p.peek() {
		if _, matched := p.match(EOF); matched {
			return ASTNode{}, p.errorAtToken(token, "unterminated cram expression")
		}

		event, err := p.innerEvent()
		if err != nil {
			return ASTNode{}, err
		}
		allEvents = append(allEvents, event)
	}
''','''	allEvents, err := p.eventsUntil(CramClose, "unterminated cram expression")
	if err != nil {
		return ASTNode{}, err
	}
'''),(PP,'''func (p *parser) cram() (ASTNode, error) {
''','''func (p *parser) eventsUntil(
	end TokenType, unterminated string,
) ([]ASTNode, error) {
	events := []ASTNode{}

	for !p.check(end) {
		if p.check(EOF) {
			return nil, p.errorAtToken(p.peek(), unterminated)
		}

		event, err := p.innerEvent()
		if err != nil {
			return nil, err
		}
		events = append(events, event)
	}

	return events, nil
}

func (p *parser) cram() (ASTNode, error) {
''')]
R['parser-vardef']=[(PP,'''	for t := p.peek(); t.sourceContext.Line == definitionLine; t = p.peek() {
		if t.tokenType == EOF {
			break
		}

		node, err''','''	for !p.check(EOF) && p.peek().sourceContext.Line == definitionLine {
		node, err'''),(PP,'''	if p.check(EOF) || p.peek().sourceContext.Line > definitionLine {
		return ASTNode{}, &model.AldaSourceError{
			Context: nameToken.sourceContext,
			Err: fmt.Errorf(
				"there must be at least one event on the same line as the '='",
			),
		}
	}
''','''	if next := p.peek(); next.tokenType == EOF ||
		definitionLine < next.sourceContext.Line {
		return ASTNode{}, p.errorAtToken(
			nameToken,
			"there must be at least one event on the same line as the '='",
		)
	}
'''),(PP,'''	// NB: This assumes the initial Name token was already consumed.
	if p.check(Equals) {
		return p.variableDefinition()
	}

	return p.variableReference()
''','''	if !p.check(Equals) {
		return p.variableReference()
	}

	return p.variableDefinition()
'''),(PP,'''	for t := p.peek(); t.tokenType != EOF; t = p.peek() {
		// fmt.Printf("t: %s\\n", t.String())
		node''','''	for !p.check(EOF) {
		node''')]
R['parser-chord']=[(PP,'''	notesCount := 0
	for _, node := range allNodes {
		switch node.Type {
		case NoteNode, RestNode:
			notesCount++
		}
	}

	if notesCount > 1 {
		allNodes''','''	if countNotes(allNodes) > 1 {
		allNodes'''),(PP,'''	if repeat != nil {
		if len(allNodes) != 1 {
			panic(fmt.Sprintf("Expected a single node in %#v", allNodes))
		}

		return''','''	if repeat == nil {
		return allNodes[0], nil
	}

	if len(allNodes) != 1 {
		panic(fmt.Sprintf("Expected a single node in %#v", allNodes))
	}

		return'''),(PP,'''					Literal: repeat.times,
				},
			},
		}, nil
	}

	return allNodes[0], nil
}
''','''					Literal: repeat.times,
				},
			},
		}, nil
}

func countNotes(nodes []ASTNode) int {
	count := 0
	for _, node := range nodes {
		if node.Type == NoteNode || node.Type == RestNode {
			count++
		}
	}
	return count
}
'''),(PP,'''		nodes = append(nodes, nodesBeforeSeparator...)

		nodesAfterSeparator''','''		nodesAfterSeparator'''),(PP,'''		nodes = append(nodes, nodesAfterSeparator...)

		allNodes = append(allNodes, nodes...)

		if''','''		allNodes = append(allNodes, nodes...)
		allNodes = append(allNodes, nodesBeforeSeparator...)
		allNodes = append(allNodes, nodesAfterSeparator...)

		if''')]
R['parser-part']=[(PP,'''	current := p.peek().tokenType

	if current == EOF {
		return false
	}

	next := p.next().tokenType

	return current == Name &&
		(next == Alias || next == Separator || next == Colon)
''','''	if !p.check(Name) {
		return false
	}

	switch p.next().tokenType {
	case Alias, Separator, Colon:
		return true
	}

	return false
'''),(PP,'''	for !p.check(EOF) && !p.looksLikePartDeclaration() {
		event, err := p.innerEvent()
		if err != nil {
			return ASTNode{}, err
		}

		partEvents.Children = append(partEvents.Children, event)
	}

	return partEvents, nil
''','''	for {
		if p.check(EOF) || p.looksLikePartDeclaration() {
			return partEvents, nil
		}

		if event, err := p.innerEvent(); err != nil {
			return ASTNode{}, err
		} else {
			partEvents.Children = append(partEvents.Children, event)
		}
	}
'''),(PP,'''	if _, err := p.consume(Colon, "in part declaration"); err != nil {
		return ASTNode{}, err
	}

	return partDecl, nil
''','''	_, err := p.consume(Colon, "in part declaration")
	if err == nil {
		return partDecl, nil
	}

	return ASTNode{}, err
''')]

SC='client/parser/scanner.go'
R['scanner-loops']=[(SC,'''	for c := s.peek(); !s.reachedEOF() && pred(c); c = s.peek() {
		s.advance()
	}
''','''	for !s.reachedEOF() {
		if !pred(s.peek()) {
			break
		}
		s.advance()
	}
'''),(SC,'''	s.consumeWhile(isDigit)
''','''	for isDigit(s.peek()) {
		s.advance()
	}
'''),(SC,'''	for s.peek() != '"' && !s.reachedEOF() {
		s.advance()
	}

	if s.reachedEOF() {
		return s.errorAtPosition(s.line, s.column, "Unterminated string")
	}

	// Consume the closing ".
	s.advance()
''','''	for !s.match('"') {
		if s.reachedEOF() {
			return s.errorAtPosition(s.line, s.column, "Unterminated string")
		}

		s.advance()
	}
'''),(SC,'''	dots := 0

	for c := s.peek(); c == '.'; c = s.peek() {
		dots++
		s.advance()
	}
''','''	var dots int32

	for s.match('.') {
		dots++
	}
'''),(SC,'dots: int32(dots)}','dots: dots}')]
R['scanner-sets']=[(SC,'''	switch c {
	case ' ', '\\r', '\\n', '/', '~', ']', '}':
		return true
	}

	return false
''','''	return strings.ContainsRune(" \\r\\n/~]}", c)
'''),(SC,'''	"strconv"
''','''	"strconv"
	"strings"
'''),(SC,'''	if isDigit(c) {
		return true
	}

	switch c {
	case '#', ' ', '\\r', '\\n', '/', '~', '*', '\\'', '}', ']', '<', '>':
		return true
	}

	return false
''','''	switch c {
	case '#', ' ', '\\r', '\\n', '/', '~', '*', '\\'', '}', ']', '<', '>':
		return true
	default:
		return isDigit(c)
	}
'''),(SC,'''	if isLetter(c) || isDigit(c) {
		return true
	}

	switch c {
	case '_', '-', '+', '\\'', '(', ')', '.':
		return true
	}

	return false
''','''	return isLetter(c) || isDigit(c) ||
		c == '_' || c == '-' || c == '+' || c == '.' ||
		c == '\\'' || c == '(' || c == ')'
'''),(SC,'''	return 'a' <= c && c <= 'g'
''','''	return !(c < 'a' || c > 'g')
''')]
R['scanner-repeat']=[(SC,'''	s.consumeSpaces()

	if c := s.peek(); !isDigit(c) {
		return s.unexpectedCharError(c, "in repeat", s.line, s.column)
	}

	startDigits''','''	s.consumeSpaces()

	if err := s.expectDigit("in repeat"); err != nil {
		return err
	}

	startDigits'''),(SC,'''	if c := s.peek(); c != ' ' &&
		c != '\\r' &&
		c != '\\n' &&
		c != ']' &&
		c != '}' &&
		!s.reachedEOF() {
		return s.unexpectedCharError(c, "in repeat", s.line, s.column)
	}

	times, err''','''	if !s.reachedEOF() {
		switch c := s.peek(); c {
		case ' ', '\\r', '\\n', ']', '}':
		default:
			return s.unexpectedCharError(c, "in repeat", s.line, s.column)
		}
	}

	times, err'''),(SC,'''func (s *scanner) parseRepeat() error {
''','''func (s *scanner) expectDigit(context string) error {
	c := s.peek()
	if isDigit(c) {
		return nil
	}

	return s.unexpectedCharError(c, context, s.line, s.column)
}

func (s *scanner) parseRepeat() error {
''')]
R['scanner-repetitions']=[(SC,'''		if c := s.peek(); !isDigit(c) {
			return s.unexpectedCharError(c, "in repetitions", s.line, s.column)
		}

		// Parse the "first" number of the range.
		startNumber := s.current
		s.consumeDigits()
		first, err := s.parseIntegerFrom(startNumber)
		if err != nil {
			return err
		}
		er := model.RepetitionRange{First: first}
''','''		// Parse the "first" number of the range.
		first, err := s.repetitionNumber()
		if err != nil {
			return err
		}
		er := model.RepetitionRange{First: first, Last: first}
'''),(SC,'''			// Make sure a number comes next.
			if c := s.peek(); !isDigit(c) {
				return s.unexpectedCharError(c, "in repetitions", s.line, s.column)
			}

			startNumber := s.current
			s.consumeDigits()
			last, err := s.parseIntegerFrom(startNumber)
			if err != nil {
				return err
			}
			er.Last = last
		} else {
			er.Last = first
		}
''','''			er.Last, err = s.repetitionNumber()
			if err != nil {
				return err
			}
		}
'''),(SC,'''func (s *scanner) parseRepetitions() error {
''','''func (s *scanner) repetitionNumber() (int32, error) {
	if c := s.peek(); !isDigit(c) {
		return 0, s.unexpectedCharError(c, "in repetitions", s.line, s.column)
	}

	startNumber := s.current
	s.consumeDigits()
	return s.parseIntegerFrom(startNumber)
}

func (s *scanner) parseRepetitions() error {
''')]
R['scanner-sexp']=[(SC,'''		var err error

		switch c {
		case '\\'':
			s.addToken(SingleQuote, nil)
		case '"':
			err = s.parseString()
		default:
			switch {
			case isDigit(c) || (c == '-' && isDigit(s.peek())):
				err = s.parseNumber()
			case isValidSymbolChar(c):
				s.parseSymbol()
			default:
				return s.unexpectedCharError(c, "in S-expression", prevLine, prevColumn)
			}
		}
		return err
	}
''','''		return s.scanLispToken(c)
	}
'''),(SC,'''func (s *scanner) scanToken() error {
''','''func (s *scanner) scanLispToken(c rune) error {
	if c == '"' {
		return s.parseString()
	}

	if c == '\\'' {
		s.addToken(SingleQuote, nil)
		return nil
	}

	switch negative := c == '-' && isDigit(s.peek()); {
	case negative, isDigit(c):
		return s.parseNumber()
	case !isValidSymbolChar(c):
		return s.unexpectedCharError(c, "in S-expression", s.startLine, s.startColumn)
	}

	s.parseSymbol()
	return nil
}

func (s *scanner) scanToken() error {
'''),(SC,'''	case '(':
		s.sexpLevel++
		s.addToken(LeftParen, nil)
		return nil
''','''	case '(':
		s.addToken(LeftParen, nil)
		s.sexpLevel++
		return nil
''')]
R['scanner-words']=[(SC,'''			n := s.peek()
			switch {
			case isLetter(n):
				s.parseName()
			case isNoteLetter(c) && (followsNoteLetter(n) || s.reachedEOF()):
				s.addToken(NoteLetter, c)
			case isRestLetter(c) && (followsRestLetter(n) || s.reachedEOF()):
				s.addToken(RestLetter, nil)
			case isOctaveLetter(c) && isDigit(n):
				err = s.parseOctaveSet()
			case isVoiceLetter(c) && isDigit(n):
				err = s.parseVoiceMarker()
			default:
				return s.unexpectedCharError(n, "in note/rest/name", s.line, s.column)
			}
''','''			err = s.scanWord(c)
'''),(SC,'''func (s *scanner) scanToken() error {
''','''func (s *scanner) scanWord(c rune) error {
	n := s.peek()

	if isLetter(n) {
		s.parseName()
		return nil
	}

	atEnd := s.reachedEOF()

	if isNoteLetter(c) && (atEnd || followsNoteLetter(n)) {
		s.addToken(NoteLetter, c)
		return nil
	}

	if isRestLetter(c) && (atEnd || followsRestLetter(n)) {
		s.addToken(RestLetter, nil)
		return nil
	}

	if isDigit(n) && isOctaveLetter(c) {
		return s.parseOctaveSet()
	}

	if isDigit(n) && isVoiceLetter(c) {
		return s.parseVoiceMarker()
	}

	return s.unexpectedCharError(n, "in note/rest/name", s.line, s.column)
}

func (s *scanner) scanToken() error {
''')]
R['scanner-advance']=[(SC,'''	r := s.input[s.current]
	s.current++

	if r == '\\n' {
		s.line++
		s.column = 1
	} else {
		s.column++
	}

	return r
''','''	r := s.input[s.current]

	if r != '\\n' {
		s.column++
	} else {
		s.column = 1
		s.line++
	}

	s.current++
	return r
'''),(SC,'''	if s.reachedEOF() {
		return false
	}

	if s.input[s.current] != expected {
		return false
	}

	s.advance()

	return true
''','''	if !s.reachedEOF() && s.input[s.current] == expected {
		s.advance()
		return true
	}

	return false
'''),(SC,'''	for !s.reachedEOF() {
		// We are at''','''	for {
		if s.reachedEOF() {
			break
		}

		// We are at'''),(SC,'''	if s.reachedEOF() {
		return 0
	}

	return s.input[s.current]
''','''	if s.current < len(s.input) {
		return s.input[s.current]
	}

	return 0
''')]
R['scanner-alias']=[(SC,'''	if c := s.peek(); c != '"' {
		return s.unexpectedCharError(c, "in alias", s.line, s.column)
	}

	// Consume the closing ".
	s.advance()

	// Trim the surrounding quotes.
	contents := s.input[s.start+1 : s.current-1]
	s.addToken(Alias, string(contents))
''','''	contents := string(s.input[s.start+1 : s.current])

	if !s.match('"') {
		return s.unexpectedCharError(s.peek(), "in alias", s.line, s.column)
	}

	s.addToken(Alias, contents)
'''),(SC,'''	c := s.peek()
	n := s.peekNext()
	if c == 's' && (terminatesNoteLength(n) || s.eofIsNext()) {
		// consume 's'
		s.advance()
		s.addToken(NoteLengthSeconds, number)
		return nil
	}

	if c == 'm' && n == 's' {
		// consume 'm' and 's'
		s.advance()
		s.advance()
		s.addToken(NoteLengthMs, number)
		return nil
	}
''','''	switch s.peek() {
	case 's':
		if s.eofIsNext() || terminatesNoteLength(s.peekNext()) {
			s.advance()
			s.addToken(NoteLengthSeconds, number)
			return nil
		}
	case 'm':
		if s.peekNext() == 's' {
			s.advance()
			s.advance()
			s.addToken(NoteLengthMs, number)
			return nil
		}
	}
''')]

A='client/parser/ast.go'
R['ast-methods']=[(A,'''func (node ASTNode) Updates() ([]model.ScoreUpdate, error) {
	concatChildUpdates := func(node ASTNode) ([]model.ScoreUpdate, error) {
		updates := []model.ScoreUpdate{}

		for _, child := range node.Children {
			childUpdates, err := child.Updates()
			if err != nil {
				return nil, err
			}

			updates = append(updates, childUpdates...)
		}

		return updates, nil
	}

''','''func concatChildUpdates(node ASTNode) ([]model.ScoreUpdate, error) {
	updates := make([]model.ScoreUpdate, 0, len(node.Children))

	for i := range node.Children {
		childUpdates, err := node.Children[i].Updates()
		if err != nil {
			return nil, err
		}

		updates = append(updates, childUpdates...)
	}

	return updates, nil
}

// singleEvent turns the updates of a node into a single event.
func singleEvent(node ASTNode) (model.ScoreUpdate, error) {
	updates, err := node.Updates()
	if err != nil {
		return nil, err
	}

	if len(updates) != 1 {
		return model.EventSequence{
			SourceContext: node.SourceContext,
			Events:        updates,
		}, nil
	}

	return updates[0], nil
}

func (node ASTNode) chordUpdates() ([]model.ScoreUpdate, error) {
	if err := node.expectChildren(); err != nil {
		return nil, err
	}

	events, err := concatChildUpdates(node)
	if err != nil {
		return nil, err
	}

	chord := model.Chord{Events: events}
	chord.SourceContext = node.SourceContext

	return []model.ScoreUpdate{chord}, nil
}

func (node ASTNode) Updates() ([]model.ScoreUpdate, error) {
'''),(A,'''		if err := node.expectChildren(); err != nil {
			return nil, err
		}

		updates, err := concatChildUpdates(node)
		if err != nil {
			return nil, err
		}

		return []model.ScoreUpdate{
			model.Chord{
				SourceContext: node.SourceContext,
				Events:        updates,
			},
		}, nil
''','''		return node.chordUpdates()
'''),(A,'''		eventUpdates, err := eventNode.Updates()
		if err != nil {
			return nil, err
		}

		var event model.ScoreUpdate

		// I don't _think_ `eventUpdates` will ever contain more than one update,
		// but just in case...
		if len(eventUpdates) == 1 {
			event = eventUpdates[0]
		} else {
			event = model.EventSequence{
				SourceContext: eventNode.SourceContext,
				Events:        eventUpdates,
			}
		}

		return''','''		event, err := singleEvent(eventNode)
		if err != nil {
			return nil, err
		}

		return'''),(A,'''		eventNode := node.Children[0]

		eventUpdates, err := eventNode.Updates()
		if err != nil {
			return nil, err
		}

		var event model.ScoreUpdate

		// I don't _think_ `eventUpdates` will ever contain more than one update,
		// but just in case...
		if len(eventUpdates) == 1 {
			event = eventUpdates[0]
		} else {
			event = model.EventSequence{
				SourceContext: eventNode.SourceContext,
				Events:        eventUpdates,
			}
		}

''','''		event, err := singleEvent(node.Children[0])
		if err != nil {
			return nil, err
		}

''')]
R['ast-lispform']=[(A,'''func (node ASTNode) Updates() ([]model.ScoreUpdate, error) {
''','''func lispForm(node ASTNode) (model.LispForm, error) {
	switch node.Type {
	case LispListNode:
		elements, err := lispForms(node.Children)
		if err != nil {
			return nil, err
		}

		return model.LispList{
			SourceContext: node.SourceContext,
			Elements:      elements,
		}, nil

	case LispNumberNode:
		return model.LispNumber{
			SourceContext: node.SourceContext,
			Value:         node.Literal.(float64),
		}, nil

	case LispQuotedFormNode:
		if err := node.expectNChildren(1); err != nil {
			return nil, err
		}

		quoted := model.LispQuotedForm{SourceContext: node.SourceContext}

		form, err := lispForm(node.Children[0])
		if err != nil {
			return nil, err
		}

		quoted.Form = form

		return quoted, nil

	case LispStringNode:
		str := model.LispString{SourceContext: node.SourceContext}
		str.Value = node.Literal.(string)
		return str, nil

	case LispSymbolNode:
		return model.LispSymbol{
			SourceContext: node.SourceContext,
			Name:          node.Literal.(string),
		}, nil

	default:
		return nil, fmt.Errorf(
			"unexpected %s node inside of Lisp form", node.Type.String(),
		)
	}
}

func lispForms(nodes []ASTNode) ([]model.LispForm, error) {
	var forms []model.LispForm

	for _, node := range nodes {
		form, err := lispForm(node)
		if err != nil {
			return nil, err
		}

		forms = append(forms, form)
	}

	return forms, nil
}

func (node ASTNode) Updates() ([]model.ScoreUpdate, error) {
'''),(A,'''		var lispForm func(ASTNode) (model.LispForm, error)
		lispForm = func(node ASTNode) (model.LispForm, error) {
			switch node.Type {
			case LispListNode:
				list := model.LispList{SourceContext: node.SourceContext}

				for _, child := range node.Children {
					form, err := lispForm(child)
					if err != nil {
						return nil, err
					}

					list.Elements = append(list.Elements, form)
				}

				return list, nil

			case LispNumberNode:
				return model.LispNumber{
					SourceContext: node.SourceContext,
					Value:         node.Literal.(float64),
				}, nil

			case LispQuotedFormNode:
				if err := node.expectNChildren(1); err != nil {
					return nil, err
				}

				form, err := lispForm(node.Children[0])
				if err != nil {
					return nil, err
				}

				return model.LispQuotedForm{
					SourceContext: node.SourceContext,
					Form:          form,
				}, nil

			case LispStringNode:
				return model.LispString{
					SourceContext: node.SourceContext,
					Value:         node.Literal.(string),
				}, nil

			case LispSymbolNode:
				return model.LispSymbol{
					SourceContext: node.SourceContext,
					Name:          node.Literal.(string),
				}, nil
			}

			return nil, fmt.Errorf(
				"unexpected %s node inside of Lisp form", node.Type.String(),
			)
		}

''','')]
R['ast-duration']=[(A,'''	duration := model.Duration{}

	for _, componentNode := range node.Children {
		switch componentNode.Type {
		default:
			return model.Duration{}, errUnexpectedNodeChild(node.Type, componentNode.Type)
		case BarlineNode:
			barline := model.Barline{SourceContext: componentNode.SourceContext}
			duration.Components = append(duration.Components, barline)
		case NoteLengthNode:
			if err := componentNode.expectChildren(); err != nil {
				return model.Duration{}, err
			}

			denom, err := componentNode.Children[0].expectNodeType(DenominatorNode)
			if err != nil {
				return model.Duration{}, err
			}

			dots := int32(0)
			if len(componentNode.Children) > 1 {
				dotsNode, err := componentNode.Children[1].expectNodeType(DotsNode)
				if err != nil {
					return model.Duration{}, err
				}

				dots = dotsNode.Literal.(int32)
			}

			noteLength := model.NoteLength{
				Denominator: denom.Literal.(float64),
				Dots:        dots,
			}

			duration.Components = append(duration.Components, noteLength)
		case NoteLengthMsNode:
			literal := componentNode.Literal.(float64)
			noteLengthMs := model.NoteLengthMs{Quantity: literal}
			duration.Components = append(duration.Components, noteLengthMs)
		case NoteLengthSecondsNode:
			literal := componentNode.Literal.(float64)
			noteLengthSeconds := model.NoteLengthSeconds{Quantity: literal}
			duration.Components = append(duration.Components, noteLengthSeconds)
		}
	}

	return duration, nil
}
''','''	var components []model.DurationComponent

	for _, child := range node.Children {
		component, err := durationComponent(node, child)
		if err != nil {
			return model.Duration{}, err
		}

		components = append(components, component)
	}

	return model.Duration{Components: components}, nil
}

func durationComponent(parent ASTNode, node ASTNode) (model.DurationComponent, error) {
	if node.Type == BarlineNode {
		return model.Barline{SourceContext: node.SourceContext}, nil
	}

	if node.Type == NoteLengthNode {
		return noteLengthOf(node)
	}

	if node.Type == NoteLengthMsNode {
		return model.NoteLengthMs{Quantity: node.Literal.(float64)}, nil
	}

	if node.Type == NoteLengthSecondsNode {
		return model.NoteLengthSeconds{Quantity: node.Literal.(float64)}, nil
	}

	return nil, errUnexpectedNodeChild(parent.Type, node.Type)
}

func noteLengthOf(node ASTNode) (model.DurationComponent, error) {
	if err := node.expectChildren(); err != nil {
		return nil, err
	}

	denom, err := node.Children[0].expectNodeType(DenominatorNode)
	if err != nil {
		return nil, err
	}

	result := model.NoteLength{Denominator: denom.Literal.(float64)}

	if len(node.Children) == 1 {
		return result, nil
	}

	dotsNode, err := node.Children[1].expectNodeType(DotsNode)
	if err != nil {
		return nil, err
	}

	result.Dots = dotsNode.Literal.(int32)
	return result, nil
}
''')]
R['ast-parts']=[(A,'''		partDecl := model.PartDeclaration{SourceContext: node.SourceContext}

		partNames,''','''		names := []string{}
		alias := ""

		partNames,'''),(A,'''			partDecl.Names = append(partDecl.Names, partName.Literal.(string))
''','''			names = append(names, partName.Literal.(string))
'''),(A,'''			partDecl.Alias = partAlias.Literal.(string)
''','''			alias = partAlias.Literal.(string)
'''),(A,'''		return append([]model.ScoreUpdate{partDecl}, eventUpdates...), nil
''','''		updates := []model.ScoreUpdate{
			model.PartDeclaration{
				SourceContext: node.SourceContext,
				Names:         names,
				Alias:         alias,
			},
		}

		return append(updates, eventUpdates...), nil
'''),(A,'''		switch len(node.Children) {
		case 0:
			break
		case 1:
			durationNode, err := node.Children[0].expectNodeType(DurationNode)
			if err != nil {
				return nil, err
			}

			dur, err := duration(durationNode)
			if err != nil {
				return nil, err
			}
			rest.Duration = dur
		default:
			return nil, fmt.Errorf("rest node must have either 0 or 1 children")
		}

		return''','''		if len(node.Children) > 1 {
			return nil, fmt.Errorf("rest node must have either 0 or 1 children")
		}

		for _, child := range node.Children {
			durationNode, err := child.expectNodeType(DurationNode)
			if err != nil {
				return nil, err
			}

			rest.Duration, err = duration(durationNode)
			if err != nil {
				return nil, err
			}
		}

		return''')]
R['ast-note']=[(A,'''		laa := model.LetterAndAccidentals{NoteLetter: noteLetter}

		if len(laaNode.Children) > 1 {''','''		accidentals := []model.Accidental(nil)

		if len(laaNode.Children) == 2 {'''),(A,'''					laa.Accidentals = append(laa.Accidentals, model.Flat)
''','''					accidentals = append(accidentals, model.Flat)
'''),(A,'''					laa.Accidentals = append(laa.Accidentals, model.Natural)
''','''					accidentals = append(accidentals, model.Natural)
'''),(A,'''					laa.Accidentals = append(laa.Accidentals, model.Sharp)
''','''					accidentals = append(accidentals, model.Sharp)
'''),(A,'''			Pitch:         laa,
		}

		if len(node.Children) > 1 {
			for _, child := range node.Children[1:] {
				switch child.Type {
				default:
					return nil, errUnexpectedNodeChild(node.Type, child.Type)
				case DurationNode:
					dur, err := duration(child)
					if err != nil {
						return nil, err
					}
					note.Duration = dur
				case TieNode:
					note.Slurred = true
				}
			}
		}
''','''			Pitch: model.LetterAndAccidentals{
				NoteLetter:  noteLetter,
				Accidentals: accidentals,
			},
		}

		for i := 1; i < len(node.Children); i++ {
			child := node.Children[i]

			if child.Type == TieNode {
				note.Slurred = true
				continue
			}

			if child.Type != DurationNode {
				return nil, errUnexpectedNodeChild(node.Type, child.Type)
			}

			dur, err := duration(child)
			if err != nil {
				return nil, err
			}

			note.Duration = dur
		}
''')]

SV='client/repl/server.go'; PM='client/repl/player_management.go'
R['repl-named-ops']=[(SV,"""	"score-text": func(server *Server, req nREPLRequest) {
		server.respondDone(req, map[string]interface{}{"text": server.input})
	},
""","""	"score-text": (*Server).scoreText,
"""),(SV,"""// Runs in a loop, handling requests from the queue""","""func (server *Server) scoreText(req nREPLRequest) {
	text := server.input
	server.respondDone(req, map[string]interface{}{"text": text})
}

// Runs in a loop, handling requests from the queue""")]
R['repl-restore']=[(SV,"""	input, score, eventIndex := server.input, server.score, server.eventIndex

	if err := server.load(input); err != nil {
		// Don't lose the score if it couldn't be reloaded, e.g. because there is no
		// player process available.
		server.input, server.score, server.eventIndex = input, score, eventIndex
		return err
	}

	return nil
}
""","""	return server.keeping(server.load)
}

func (server *Server) keeping(f func(string) error) error {
	before := *server

	err := f(before.input)
	if err != nil {
		server.score = before.score
		server.eventIndex = before.eventIndex
		server.input = before.input
	}

	return err
}
""")]
R['repl-receive']=[(SV,"""		go func() {
			defer conn.Close()
""","""		go server.receive(conn)
	}
}

func (server *Server) receive(conn net.Conn) {
	{
		{
			defer conn.Close()
"""),(SV,"""					server.requestQueue <- nREPLRequest{conn: conn, msg: msg}
				}
			}
		}()
	}
""","""					server.requestQueue <- nREPLRequest{conn: conn, msg: msg}
				}
			}
		}
	}
""")]
R['repl-respond']=[(SV,"""	if session, present := req.msg["session"]; present {
		data["session"] = session
	}

	if id, present := req.msg["id"]; present {
		data["id"] = id
	}
""","""	for _, field := range []string{"id", "session"} {
		if value, present := req.msg[field]; present {
			data[field] = value
		}
	}
""")]
R['repl-manage']=[(PM,"""		if !server.hasPlayer() {
			player, err := findAvailablePlayer()
			if err != nil {
				log.Warn().Err(err).Msg("No player processes available.")
			} else {
				log.Info().Interface("player", player).Msg("Found player process.")
				server.player = player
			}
		}

		if server.hasPlayer() && now.Sub(lastPing) > pingInterval {""","""		server.findPlayer()

		due := now.Sub(lastPing) > pingInterval
		if due && server.hasPlayer() {"""),(PM,"""func (server *Server) shutdownPlayer""","""func (server *Server) findPlayer() {
	if server.hasPlayer() {
		return
	}

	player, err := findAvailablePlayer()
	if err != nil {
		log.Warn().Err(err).Msg("No player processes available.")
		return
	}

	log.Info().Interface("player", player).Msg("Found player process.")
	server.player = player
}

func (server *Server) shutdownPlayer""")]
R['repl-opts']=[(SV,"""		from, hit := req.msg["from"]
		if hit {
			switch f := from.(type) {
			case string:
				transmitOpts = append(transmitOpts, transmitter.TransmitFrom(f))
			}
		}

		to, hit := req.msg["to"]
		if hit {
			switch t := to.(type) {
			case string:
				transmitOpts = append(transmitOpts, transmitter.TransmitTo(t))
			}
		}
""","""		if from, ok := req.msg["from"].(string); ok {
			transmitOpts = append(transmitOpts, transmitter.TransmitFrom(from))
		}

		if to, ok := req.msg["to"].(string); ok {
			transmitOpts = append(transmitOpts, transmitter.TransmitTo(to))
		}
""")]
R['repl-max']=[(SV,"""			newOffset := int32(0)
			for _, offset := range server.score.PartOffsets() {
				offsetRounded := int32(math.Round(offset))
				if offsetRounded > newOffset {
					newOffset = offsetRounded
				}
			}
""","""			end := 0.0
			for _, offset := range server.score.PartOffsets() {
				end = math.Max(end, offset)
			}
			newOffset := int32(math.Round(end))
""")]
R['repl-code']=[(SV,"""		errors := validateRequest(
			req.msg,
			requestFieldSpec{name: "code", valueType: typeString, required: true},
		)
		if len(errors) > 0 {
			server.respondErrors(req, errors, nil)
			return
		}

		input := req.msg["code"].(string)

		if err := server.load(input); err != nil {
			server.respondError(req, err.Error(), nil)
			return
		}

		server.respondDone(req, nil)
	},
""","""		input, ok := server.code(req)
		if !ok {
			return
		}

		server.respondResult(req, server.load(input))
	},
"""),(SV,"""// Runs in a loop, handling requests from the queue""","""func (server *Server) code(req nREPLRequest) (string, bool) {
	errors := validateRequest(
		req.msg,
		requestFieldSpec{name: "code", valueType: typeString, required: true},
	)
	if len(errors) != 0 {
		server.respondErrors(req, errors, nil)
		return "", false
	}

	return req.msg["code"].(string), true
}

func (server *Server) respondResult(req nREPLRequest, err error) {
	if err == nil {
		server.respondDone(req, nil)
		return
	}

	server.respondError(req, err.Error(), nil)
}

// Runs in a loop, handling requests from the queue""")]

PM='client/system/process_management.go'
R['pm-available']=[(PM,'''		if player.State == "ready" || player.State == "starting" {
			availablePlayers++
		}
''','''		if isAvailable(player) {
			availablePlayers++
		}
'''),(PM,'''// FillPlayerPool ensures''','''func isAvailable(player PlayerState) bool {
	switch player.State {
	case "ready", "starting":
		return true
	default:
		return false
	}
}

// FillPlayerPool ensures''')]
R['pm-pool-order']=[(PM,'''		result := make(chan error)
		results = append(results, result)
		go func() { result <- spawnPlayer(playerPath) }()
''','''		results = append(results, spawn(playerPath))
'''),(PM,'''// FillPlayerPool ensures''','''func spawn(playerPath string) <-chan error {
	result := make(chan error)
	go func() {
		result <- spawnPlayer(playerPath)
	}()
	return result
}

// FillPlayerPool ensures''')]
R['pm-pool-i']=[(PM,'''	for i := 0; i < playersToStart; i++ {''','''	for i := 1; i <= playersToStart; i++ {''')]
R['pm-missing']=[(PM,'''	availablePlayers := 0
	for _, player := range players {
		if player.State == "ready" || player.State == "starting" {
			availablePlayers++
		}
	}

	desiredAvailablePlayers := 3
	playersToStart := desiredAvailablePlayers - availablePlayers
''','''	const desiredAvailablePlayers = 3

	availablePlayers := 0
	for i := range players {
		state := players[i].State
		if state != "ready" && state != "starting" {
			continue
		}
		availablePlayers = availablePlayers + 1
	}

	playersToStart := desiredAvailablePlayers - availablePlayers
''')]
R['pm-find-loop']=[(PM,'''	players, err := ReadPlayerStates()
	if err != nil {
		return PlayerState{}, err
	}

	for _, player := range players {
		if player.State != "ready" {
			continue
		}

		if _, err := PingPlayer(player.Port); err != nil {
			log.Warn().
				Interface("player", player).
				Err(err).
				Msg("Failed to reach player process. Will try another one.")

			if err := DeletePlayerStateFile(player.ID); err != nil {
				return PlayerState{}, err
			}

			if err := FillPlayerPool(); err != nil {
				return PlayerState{}, err
			}

			return FindAvailablePlayer()
		}

		return player, nil
	}

	return PlayerState{}, ErrNoPlayersAvailable
}
''','''	for {
		player, found, err := readyPlayer()
		if err != nil {
			return PlayerState{}, err
		}

		if !found {
			return PlayerState{}, ErrNoPlayersAvailable
		}

		_, err = PingPlayer(player.Port)
		if err == nil {
			return player, nil
		}

		log.Warn().
			Interface("player", player).
			Err(err).
			Msg("Failed to reach player process. Will try another one.")

		if err := DeletePlayerStateFile(player.ID); err != nil {
			return PlayerState{}, err
		}

		if err := FillPlayerPool(); err != nil {
			return PlayerState{}, err
		}
	}
}

func readyPlayer() (PlayerState, bool, error) {
	players, err := ReadPlayerStates()
	if err != nil {
		return PlayerState{}, false, err
	}

	for _, player := range players {
		if player.State == "ready" {
			return player, true, nil
		}
	}

	return PlayerState{}, false, nil
}
''')]
R['pm-retry-helper']=[(PM,'''			if err := DeletePlayerStateFile(player.ID); err != nil {
				return PlayerState{}, err
			}

			if err := FillPlayerPool(); err != nil {
				return PlayerState{}, err
			}

			return FindAvailablePlayer()
''','''			return replaceUnreachablePlayer(player)
'''),(PM,'''// FindPlayerByID returns''','''func replaceUnreachablePlayer(player PlayerState) (PlayerState, error) {
	if err := DeletePlayerStateFile(player.ID); err != nil {
		return PlayerState{}, err
	}

	if err := FillPlayerPool(); err != nil {
		return PlayerState{}, err
	}

	return FindAvailablePlayer()
}

// FindPlayerByID returns''')]
R['pm-decode']=[(PM,'''			if len(contents) == 0 {
				return
			}

			var state PlayerState

			// `readError` is initially a possible error reading the file.
			if readError == nil {
				readError = json.Unmarshal(contents, &state)
			}
''','''			if len(contents) < 1 {
				return
			}

			state := PlayerState{}

			readError = decodeState(contents, readError, &state)
'''),(PM,'''			if len(contents) == 0 {
				return
			}

			var state REPLServerState

			// `readError` is initially a possible error reading the file.
			if readError == nil {
				readError = json.Unmarshal(contents, &state)
			}
''','''			if len(contents) == 0 {
				return
			}

			var state REPLServerState
			readError = decodeState(contents, readError, &state)
'''),(PM,'''// ReadPlayerStates reads all''','''func decodeState(contents []byte, readError error, state interface{}) error {
	if readError != nil {
		return readError
	}
	return json.Unmarshal(contents, state)
}

// ReadPlayerStates reads all''')]
R['pm-stale-rewrite']=[(PM,'''			if errors.Is(err, os.ErrNotExist) {
				return nil
			}

			if err != nil {
				return err
			}

			if info.IsDir() {
				return nil
			}

			fileInfo, err := os.Stat(path)
			if errors.Is(err, os.ErrNotExist) {
				return nil
			} else if err != nil {
				return err
			}

			timeSinceModified := time.Since(fileInfo.ModTime())

			if timeSinceModified > time.Minute*2 {
				log.Debug().
					Float64("seconds-since-modified", timeSinceModified.Seconds()).
					Str("path", path).
					Msg("Deleting stale file.")

				err := os.Remove(path)
				if err != nil && !errors.Is(err, os.ErrNotExist) {
					return err
				}
				return nil
			}

			return nil
''','''			if err != nil {
				return unlessGone(err)
			}

			if info.IsDir() {
				return nil
			}

			fileInfo, err := os.Stat(path)
			if err != nil {
				return unlessGone(err)
			}

			age := time.Since(fileInfo.ModTime())
			if age <= 2*time.Minute {
				return nil
			}

			log.Debug().
				Float64("seconds-since-modified", age.Seconds()).
				Str("path", path).
				Msg("Deleting stale file.")

			return unlessGone(os.Remove(path))
'''),(PM,'''func cleanUpStaleStateFiles(''','''func unlessGone(err error) error {
	if errors.Is(err, os.ErrNotExist) {
		return nil
	}
	return err
}

func cleanUpStaleStateFiles(''')]
R['pm-await']=[('client/util/await.go','''		err := test()

		if err == nil {
			return nil
		}

		select {
		case <-timeout:
			return err
		default:
			time.Sleep(100 * time.Millisecond)
		}
''','''		err := test()
		if err == nil {
			return nil
		}

		select {
		case <-timeout:
			return err
		default:
		}

		time.Sleep(100 * time.Millisecond)
''')]
R['pm-await-since']=[('client/util/await.go','''	timeout := time.After(timeoutDuration)

	for {
		err := test()

		if err == nil {
			return nil
		}

		select {
		case <-timeout:
			return err
		default:
			time.Sleep(100 * time.Millisecond)
		}
	}
''','''	started := time.Now()

	for {
		err := test()

		if err == nil {
			return nil
		}

		if time.Since(started) >= timeoutDuration {
			return err
		}

		time.Sleep(100 * time.Millisecond)
	}
''')]

# the command line
play='client/cmd/play.go'
SRC='''		switch {
		case file != "":
			ast, err = parser.ParseFile(file)

		case code != "":
			ast, err = parser.ParseString(code)

		default:
			ast, err = parseStdin()
			if err == system.ErrNoInputSupplied {
				action = "unpause"
				err = nil
			}
		}
'''
PC='var playCmd = &cobra.Command{'
R['cl-source-helper']=[(play,SRC,'''		ast, err = parseSource()
		if err == system.ErrNoInputSupplied {
			action, err = "unpause", nil
		}
'''),(play,PC,'''func parseSource() (parser.ASTNode, error) {
	if file != "" {
		return parser.ParseFile(file)
	}

	if code != "" {
		return parser.ParseString(code)
	}

	return parseStdin()
}

'''+PC)]
R['cl-presentable']=[(play,'''		switch err.(type) {
		case *model.AldaSourceError:
			err = &help.UserFacingError{Err: err}
		}

		if err != nil {
			return err
		}

		if action''','''		if err != nil {
			return presentable(err)
		}

		if action'''),(play,PC,'''func presentable(err error) error {
	if _, ok := err.(*model.AldaSourceError); ok {
		return &help.UserFacingError{Err: err}
	}

	return err
}

'''+PC)]
R['cl-stop-direct']=[('client/cmd/stop.go','			players = append(players, knownPlayers...)\n','			players = knownPlayers\n'),('client/cmd/stop.go','''			players = append(players, system.PlayerState{
				ID: "unknown", State: "unknown", Port: playerPort,
			})
''','''			players = []system.PlayerState{{
				ID: "unknown", State: "unknown", Port: playerPort,
			}}
''')]
R['cl-export-named']=[('client/cmd/export.go','	RunE: func(_ *cobra.Command, args []string) error {\n','	RunE: runExport,\n}\n\nfunc runExport(_ *cobra.Command, args []string) error {\n'),('client/cmd/export.go','''		return nil
	},
}
''','''		return nil
}
''')]
R['cl-prerun-order']=[('client/cmd/root.go','''		sendTelemetry(cmd.Name())

''','''		commandName := cmd.Name()

'''),('client/cmd/root.go','''		switch cmd.Name() {
		case "ps", "shutdown", "doctor":
			// Don't fill the player pool.
		default:
			fillPlayerPool()
		}
''','''		if commandName != "ps" && commandName != "shutdown" && commandName != "doctor" {
			fillPlayerPool()
		}

		sendTelemetry(commandName)
''')]
R['cl-flags-helper']=[('client/cmd/play.go','''	playCmd.Flags().StringVarP(
		&file, "file", "f", "", "Read Alda source code from a file",
	)

	playCmd.Flags().StringVarP(
		&code, "code", "c", "", "Supply Alda source code as a string",
	)
''','''	addSourceFlags(playCmd)
'''),('client/cmd/parse.go','''	parseCmd.Flags().StringVarP(
		&file, "file", "f", "", "Read Alda source code from a file",
	)

	parseCmd.Flags().StringVarP(
		&code, "code", "c", "", "Supply Alda source code as a string",
	)
''','''	addSourceFlags(parseCmd)
'''),(play,PC,'''func addSourceFlags(cmd *cobra.Command) {
	flags := cmd.Flags()
	flags.StringVarP(&file, "file", "f", "", "Read Alda source code from a file")
	flags.StringVarP(&code, "code", "c", "", "Supply Alda source code as a string")
}

'''+PC)]
R['cl-ps-helper']=[('client/cmd/ps.go','''		for _, state := range playerStates {
			expiry := humanize.Time(time.Unix(state.Expiry/1000, 0))

			fmt.Printf(
				"%s\\t%d\\t%s\\t%s\\t%s\\t%d\\n",
				state.ID, state.Port, state.State, expiry, "player", state.PID,
			)
		}

		for _, state := range replServerStates {
			fmt.Printf(
				"%s\\t%d\\t%s\\t%s\\t%s\\t%d\\n",
				state.ID, state.Port, "-", "-", "repl-server", state.PID,
			)
		}
''','''		for i := range playerStates {
			state := playerStates[i]
			printProcess(
				state.ID, state.Port, state.State,
				humanize.Time(time.Unix(state.Expiry/1000, 0)), "player", state.PID,
			)
		}

		for _, state := range replServerStates {
			printProcess(state.ID, state.Port, "-", "-", "repl-server", state.PID)
		}
'''),('client/cmd/ps.go','var psCmd =','''func printProcess(id string, port int, state, expiry, kind string, pid int) {
	fmt.Printf("%s\\t%d\\t%s\\t%s\\t%s\\t%d\\n", id, port, state, expiry, kind, pid)
}

var psCmd =''')]
R['cl-stop-targets']=[('client/cmd/stop.go','''		players := []system.PlayerState{}

		// Determine the players to which to send a "stop" message based on the
		// provided CLI options.
		switch {
		// Port is explicitly specified, so use that port.
		case playerPort != -1:
			players = append(players, system.PlayerState{
				ID: "unknown", State: "unknown", Port: playerPort,
			})
		// Player ID is specified; look up the player by ID and use its port.
		case playerID != "":
			player, err := system.FindPlayerByID(playerID)
			if err != nil {
				return err
			}
			players = append(players, player)
		// Send a "stop" message to all known players.
		default:
			knownPlayers, err := system.ReadPlayerStates()
			if err != nil {
				return err
			}
			players = append(players, knownPlayers...)
		}
''','''		players, err := chosenPlayers()
		if err != nil {
			return err
		}
'''),('client/cmd/stop.go','var stopCmd =','''// chosenPlayers: the player with the given port or ID, or else all of them.
func chosenPlayers() ([]system.PlayerState, error) {
	if playerPort != -1 {
		return []system.PlayerState{{ID: "unknown", State: "unknown", Port: playerPort}}, nil
	}

	if playerID == "" {
		return system.ReadPlayerStates()
	}

	player, err := system.FindPlayerByID(playerID)
	if err != nil {
		return nil, err
	}

	return []system.PlayerState{player}, nil
}

var stopCmd =''')]
R['cl-main']=[('client/main.go','''	exitCode := 0

	if err := cmd.Execute(); err != nil {
		exitCode = 1
		help.PresentError(err)
	}

	cmd.AwaitBackgroundActivities()

	os.Exit(exitCode)
''','''	err := cmd.Execute()
	if err != nil {
		help.PresentError(err)
	}

	cmd.AwaitBackgroundActivities()

	if err != nil {
		os.Exit(1)
	}

	os.Exit(0)
''')]
R['cl-verbosity-table']=[('client/cmd/root.go','''	switch verbosity {
	case 0:
		log.SetGlobalLevel("error")
	case 1:
		log.SetGlobalLevel("warn")
	case 2:
		log.SetGlobalLevel("info")
	case 3:
		log.SetGlobalLevel("debug")
	default:
		log.SetGlobalLevel("warn")

		return''','''	level := "warn"
	known := true

	switch verbosity {
	case 0:
		level = "error"
	case 1:
	case 2:
		level = "info"
	case 3:
		level = "debug"
	default:
		known = false
	}

	log.SetGlobalLevel(level)

	if !known {
		return''')]
R['cl-export-abs-early']=[('client/cmd/export.go','''		var player system.PlayerState

''','''		target := outputFilename
		if target != "" {
			if target, err = filepath.Abs(outputFilename); err != nil {
				return err
			}
		}

		var player system.PlayerState

'''),('client/cmd/export.go','''			// The player process has its own working directory, so it needs to be told
			// the absolute path.
			absFilename, err := filepath.Abs(outputFilename)
			if err != nil {
				return err
			}
			targetFilename = absFilename
''','''			targetFilename = target
''')]

UPD='client/cmd/update.go'
R['up-copy-helper']=[(UPD,'''	in, err := os.Open(inpath)
	if err != nil {
		return err
	}
	defer in.Close()

	log.Debug().
		Str("destination", outpath).
		Msg("Opening destination.")

	out, err := os.Create(outpath)
	if err != nil {
		return err
	}
	defer out.Close()

	log.Debug().Msg("Copying file.")

	if _, err := io.Copy(out, in); err != nil {
		return err
	}
''','''	out, err := copyFile(inpath, outpath)
	if err != nil {
		return err
	}
	defer out.Close()
'''),(UPD,'''func installAsset(''','''func copyFile(from, to string) (*os.File, error) {
	in, err := os.Open(from)
	if err != nil {
		return nil, err
	}
	defer in.Close()

	out, err := os.Create(to)
	if err != nil {
		return nil, err
	}

	if _, err := io.Copy(out, in); err != nil {
		out.Close()
		return nil, err
	}

	return out, nil
}

func installAsset(''')]
R['up-asset-fields']=[(UPD,'''		assetName, ok := m["name"].(string)
		if !ok {
			return nil, errUnexpectedAsset
		}

		assetType, ok := m["type"].(string)
		if !ok {
			return nil, errUnexpectedAsset
		}

		assetUrl, ok := m["url"].(string)
		if !ok {
			return nil, errUnexpectedAsset
		}

		assets = append(assets, releaseAsset{
			assetName: assetName,
			assetType: assetType,
			assetUrl:  assetUrl,
		})
''','''		asset, ok := assetOf(m)
		if !ok {
			return nil, errUnexpectedAsset
		}

		assets = append(assets, asset)
'''),(UPD,'''func versionAssets(''','''func assetOf(m map[string]interface{}) (asset releaseAsset, ok bool) {
	if asset.assetName, ok = m["name"].(string); !ok {
		return
	}
	if asset.assetType, ok = m["type"].(string); !ok {
		return
	}
	asset.assetUrl, ok = m["url"].(string)
	return
}

func versionAssets(''')]
R['up-fetch-helper']=[(UPD,'''	fmt.Println("Fetching information about Alda releases...")
	fmt.Println()

	response, err := (&http.Client{Timeout: 30 * time.Second}).Get(
		aldaApiUrl("/releases/latest?from-version=" + generated.ClientVersion),
	)
	if err != nil {
		return nil, err
	}
	defer response.Body.Close()

	if response.StatusCode != 200 {
		return nil, errUnexpectedAldaApiResponse(response)
	}

	return json.ParseJSONBuffer(response.Body)
''','''	response, err := askApi("/releases/latest?from-version=" + generated.ClientVersion)
	if err != nil {
		return nil, err
	}
	defer response.Body.Close()

	if response.StatusCode == 200 {
		return json.ParseJSONBuffer(response.Body)
	}

	return nil, errUnexpectedAldaApiResponse(response)
'''),(UPD,'''	fmt.Println("Fetching information about Alda releases...")
	fmt.Println()

	response, err := (&http.Client{Timeout: 30 * time.Second}).Get(
		aldaApiUrl("/release/" + version),
	)
	if err != nil {
''','''	response, err := askApi("/release/" + version)
	if err != nil {
'''),(UPD,'''func fetchReleaseInfo(''','''func askApi(what string) (*http.Response, error) {
	fmt.Println("Fetching information about Alda releases...")
	fmt.Println()

	client := http.Client{Timeout: 30 * time.Second}
	return client.Get(aldaApiUrl(what))
}

func fetchReleaseInfo(''')]
R['up-first-error']=[(UPD,'''	downloadErrors := make([]error, len(assets))
''','''	var downloadError error
	var mutex sync.Mutex
'''),(UPD,'''	for i, asset := range assets {
		client''','''	for _, asset := range assets {
		client'''),(UPD,'''		go func(i int) {
			defer waitGroup.Done()
''','''		go func() {
			defer waitGroup.Done()
'''),(UPD,'''				downloadErrors[i] = err
''','''				mutex.Lock()
				downloadError = err
				mutex.Unlock()
'''),(UPD,'''		}(i)
	}
''','''		}()
	}
'''),(UPD,'''	for _, err := range downloadErrors {
		if err != nil {
			return "", err
		}
	}
''','''	mutex.Lock()
	defer mutex.Unlock()
	if downloadError != nil {
		return "", downloadError
	}
''')]
R['up-player-early']=[(UPD,'''			aldaPlayerAsset = asset
		}
	}

	if aldaPlayerAsset.assetName == "" {
		return fmt.Errorf(
			"release %s seems to be missing an alda-player asset",
			version,
		)
	}

	return downloadAndInstallAssets([]releaseAsset{aldaPlayerAsset})
''','''			aldaPlayerAsset = asset
			found = true
		}
	}

	if found {
		return downloadAndInstallAssets([]releaseAsset{aldaPlayerAsset})
	}

	return fmt.Errorf(
		"release %s seems to be missing an alda-player asset",
		version,
	)
'''),(UPD,'''	var aldaPlayerAsset releaseAsset
''','''	var aldaPlayerAsset releaseAsset
	found := false
''')]
R['up-renamed-pattern']=[('client/system/dirs.go','''	return regexp.MustCompile(
		`^alda(-player)?(\\.exe)?\\.\\d+\\.\\d+\\.old$`,
	).MatchString(basename)
''','''	return renamedExecutable.MatchString(basename)
'''),('client/system/dirs.go','''// IsRenamedExecutable returns''','''var renamedExecutable = regexp.MustCompile(
	`^(?:alda|alda-player)(?:\\.exe)?(?:\\.[0-9]+){2}\\.old$`,
)

// IsRenamedExecutable returns'''),('client/system/dirs.go','''			renamedExecutable := filepath.Join(aldaDir, basename)
			renamedExecutables = append(renamedExecutables, renamedExecutable)
''','''			renamedExecutables = append(renamedExecutables, filepath.Join(aldaDir, basename))
''')]
R['fm-options']=[('client/cmd/format.go','''		if formatConfiguredWrapLen > 0 && len(formatConfiguredIndentText) > 0 {
			err = parser.FormatASTToCode(
				root,
				out,
				parser.ConfigureSoftWrapLen(formatConfiguredWrapLen),
				parser.ConfigureIndentText(formatConfiguredIndentText),
			)
		} else if formatConfiguredWrapLen > 0 {
			err = parser.FormatASTToCode(
				root,
				out,
				parser.ConfigureSoftWrapLen(formatConfiguredWrapLen),
			)
		} else if len(formatConfiguredIndentText) > 0 {
			err = parser.FormatASTToCode(
				root,
				out,
				parser.ConfigureIndentText(formatConfiguredIndentText),
			)
		} else {
			err = parser.FormatASTToCode(root, out)
		}
''','''		switch wrap, indent := formatConfiguredWrapLen > 0, formatConfiguredIndentText != ""; {
		case wrap && indent:
			err = parser.FormatASTToCode(
				root,
				out,
				parser.ConfigureSoftWrapLen(formatConfiguredWrapLen),
				parser.ConfigureIndentText(formatConfiguredIndentText),
			)
		case wrap:
			err = parser.FormatASTToCode(root, out, parser.ConfigureSoftWrapLen(formatConfiguredWrapLen))
		case indent:
			err = parser.FormatASTToCode(root, out, parser.ConfigureIndentText(formatConfiguredIndentText))
		default:
			err = parser.FormatASTToCode(root, out)
		}
''')]
R['im-source-helper']=[('client/cmd/import.go','''		switch {
		case file != "":
			b, err := os.ReadFile(file)
			if err != nil {
				return help.UserFacingErrorf(
					`Failed to open file %s: %s.`,
					color.Aurora.BrightYellow(file),
					err.Error(),
				)
			}

			scoreUpdates, err = importer.ImportMusicXML(b)
			if err != nil {
				return err
			}
		case code != "":
			scoreUpdates, err = importer.ImportMusicXML([]byte(code))
			if err != nil {
				return err
			}

		default:
			b, err := system.ReadStdin()
			if err != nil {
				return help.UserFacingErrorf(
					`Failed to read from stdin: %s.`,
					err.Error(),
				)
			}

			scoreUpdates, err = importer.ImportMusicXML(b)
			if err != nil {
				return err
			}
		}
''','''		source, err := importSource()
		if err != nil {
			return err
		}

		scoreUpdates, err = importer.ImportMusicXML(source)
		if err != nil {
			return err
		}
'''),('client/cmd/import.go','''		var err error

''','''
'''),('client/cmd/import.go','''var importCmd = ''','''func importSource() ([]byte, error) {
	if file != "" {
		b, err := os.ReadFile(file)
		if err != nil {
			return nil, help.UserFacingErrorf(
				`Failed to open file %s: %s.`,
				color.Aurora.BrightYellow(file),
				err.Error(),
			)
		}
		return b, nil
	}

	if code != "" {
		return []byte(code), nil
	}

	b, err := system.ReadStdin()
	if err != nil {
		return nil, help.UserFacingErrorf(
			`Failed to read from stdin: %s.`,
			err.Error(),
		)
	}
	return b, nil
}

var importCmd = ''')]
R['ask-loop']=[('client/text/interaction.go','''		switch strings.ToLower(strings.TrimSpace(response)) {
		case "":
			return defaultToYes
		case "y", "yes":
			return true
		case "n", "no":
			return false
		}
''','''		answer := strings.ToLower(strings.TrimSpace(response))

		if answer == "" {
			return defaultToYes
		}

		if answer == "n" || answer == "no" {
			return false
		}

		if answer == "yes" || answer == "y" {
			return true
		}
''')]

TEL='client/cmd/telemetry.go'
R['te-off-helper']=[(TEL,'''	if os.Getenv("ALDA_DISABLE_TELEMETRY") == "yes" {
		log.Info().''','''	if disabledForThisRun() {
		log.Info().'''),(TEL,'''func readTelemetryStatus()''','''func disabledForThisRun() bool {
	return os.Getenv("ALDA_DISABLE_TELEMETRY") == "yes"
}

func readTelemetryStatus()'''),(TEL,'''	switch str := string(content); str {
	case "enabled":
		return TelemetryEnabled, nil
	case "disabled":
		return TelemetryDisabled, nil
	default:
		return -1, fmt.Errorf("unrecognized telemetry file content: %s", str)
	}
''','''	str := string(content)

	if str == "disabled" {
		return TelemetryDisabled, nil
	}

	if str == "enabled" {
		return TelemetryEnabled, nil
	}

	return -1, fmt.Errorf("unrecognized telemetry file content: %s", str)
''')]
R['te-client']=[(TEL,'''	response, err := (&http.Client{Timeout: 5 * time.Second}).Post(
		aldaApiUrl("/telemetry"),
		"application/json",
		bytes.NewBuffer(json),
	)
''','''	client := &http.Client{Timeout: 5 * time.Second}
	body := bytes.NewReader(json)

	response, err := client.Post(aldaApiUrl("/telemetry"), "application/json", body)
'''),(TEL,'''	payload := map[string]string{
		"os":      runtime.GOOS,
		"arch":    runtime.GOARCH,
		"version": generated.ClientVersion,
		"command": command,
	}
''','''	payload := map[string]string{}
	payload["command"] = command
	payload["version"] = generated.ClientVersion
	payload["arch"] = runtime.GOARCH
	payload["os"] = runtime.GOOS
''')]
R['te-payload-helper']=[(TEL,'''	payload := map[string]string{
		"os":      runtime.GOOS,
		"arch":    runtime.GOARCH,
		"version": generated.ClientVersion,
		"command": command,
	}

	json, err := json.Marshal(payload)
''','''	json, err := json.Marshal(telemetryPayload(command))
'''),(TEL,'''func sendTelemetryRequest(''','''func telemetryPayload(command string) map[string]string {
	return map[string]string{
		"os":      runtime.GOOS,
		"arch":    runtime.GOARCH,
		"version": generated.ClientVersion,
		"command": command,
	}
}

func sendTelemetryRequest(''')]
R['te-set']=[(TEL,'''		if telemetryEnable {
			if err := enableTelemetry(); err != nil {
				return err
			}

			reportTelemetryStatus("enabled")
			return nil
		}

		if telemetryDisable {
			if err := disableTelemetry(); err != nil {
				return err
			}

			reportTelemetryStatus("disabled")
			return nil
		}

		return showTelemetryStatus()
''','''		switch {
		case telemetryEnable:
			return setTelemetry("enabled")
		case telemetryDisable:
			return setTelemetry("disabled")
		default:
			return showTelemetryStatus()
		}
'''),(TEL,'''func disableTelemetry() error {
	return writeTelemetryStatus("disabled")
}
''','''func setTelemetry(status string) error {
	if err := writeTelemetryStatus(status); err != nil {
		return err
	}

	reportTelemetryStatus(status)
	return nil
}
''')]
R['te-wanted']=[('client/cmd/root.go','''	status, err := readTelemetryStatus()

	// If the telemetry status file contains unexpected content, or if we couldn't
	// read the file for some reason, the only reasonable thing to do is not to
	// record telemetry.
	if err != nil {
		log.Warn().
			Err(err).
			Msg("Couldn't determine whether telemetry is enabled.")
		return
	}

	// Don't record telemetry if the user has opted out.
	if status == TelemetryDisabled {
		return
	}
''','''	if !telemetryWanted() {
		return
	}
'''),('client/cmd/root.go','''func sendTelemetry(''','''func telemetryWanted() bool {
	status, err := readTelemetryStatus()
	if err != nil {
		log.Warn().
			Err(err).
			Msg("Couldn't determine whether telemetry is enabled.")
		return false
	}

	return status != TelemetryDisabled
}

func sendTelemetry(''')]
R['te-file-helper']=[(TEL,'''	tmpFilepath := fmt.Sprintf("%s.%d", telemetryStatusFilepath, os.Getpid())

	if err := os.WriteFile(tmpFilepath, []byte(status), 0644); err != nil {
		return err
	}

	return os.Rename(tmpFilepath, telemetryStatusFilepath)
''','''	return replaceFile(telemetryStatusFilepath, []byte(status))
'''),(TEL,'''func writeTelemetryStatus(''','''func replaceFile(path string, content []byte) error {
	tmp := fmt.Sprintf("%s.%d", path, os.Getpid())

	err := os.WriteFile(tmp, content, 0644)
	if err == nil {
		err = os.Rename(tmp, path)
	}
	return err
}

func writeTelemetryStatus(''')]

CLIENT = 'client/repl/client.go'
R['rc-play-steps'] = [(CLIENT, '''				for i := 0; i < len(args); i++ {
					// If this is the last argument, that means there are an odd number of
					// arguments, which is invalid because we are expecting an even number
					// of arguments.
					if i == len(args)-1 {
						return invalidArgsError(args)
					}

					switch args[i] {
					case "from":
						_, hit := req["from"]
						if hit {
							return invalidArgsError(args)
						}
						i++
						req["from"] = args[i]
					case "to":
						_, hit := req["to"]
						if hit {
							return invalidArgsError(args)
						}
						i++
						req["to"] = args[i]
					default:
						return invalidArgsError(args)
					}
				}
''', '''				if len(args)%2 != 0 {
					return invalidArgsError(args)
				}
				for i := 0; i < len(args); i += 2 {
					key := args[i]
					if key != "from" && key != "to" {
						return invalidArgsError(args)
					}
					if _, hit := req[key]; hit {
						return invalidArgsError(args)
					}
					req[key] = args[i+1]
				}
''')]
R['rc-play-rest'] = [(CLIENT, '''				for i := 0; i < len(args); i++ {
					// If this is the last argument, that means there are an odd number of
					// arguments, which is invalid because we are expecting an even number
					// of arguments.
					if i == len(args)-1 {
						return invalidArgsError(args)
					}

					switch args[i] {
					case "from":
						_, hit := req["from"]
						if hit {
							return invalidArgsError(args)
						}
						i++
						req["from"] = args[i]
					case "to":
						_, hit := req["to"]
						if hit {
							return invalidArgsError(args)
						}
						i++
						req["to"] = args[i]
					default:
						return invalidArgsError(args)
					}
				}
''', '''				for rest := args; len(rest) > 0; rest = rest[2:] {
					if len(rest) == 1 {
						return invalidArgsError(args)
					}

					switch rest[0] {
					case "from", "to":
						if _, hit := req[rest[0]]; hit {
							return invalidArgsError(args)
						}
						req[rest[0]] = rest[1]
					default:
						return invalidArgsError(args)
					}
				}
''')]
R['rc-assert'] = [(CLIENT, '''	switch res["text"].(type) {
	case string: // OK to proceed
	default:
		return "", fmt.Errorf(
			"the response from the REPL server did not contain the score " +
				"text",
		)
	}
	return res["text"].(string), nil
''', '''	if text, ok := res["text"].(string); ok {
		return text, nil
	}

	return "", fmt.Errorf(
		"the response from the REPL server did not contain the score text",
	)
'''), (CLIENT, '''	switch res["data"].(type) {
	case string: // OK to proceed
	default:
		return nil, fmt.Errorf(
			"the response from the REPL server did not contain the score data",
		)
	}

	return json.ParseJSON([]byte(res["data"].(string)))
''', '''	data, ok := res["data"].(string)
	if !ok {
		return nil, fmt.Errorf(
			"the response from the REPL server did not contain the score data",
		)
	}

	return json.ParseJSON([]byte(data))
''')]
R['rc-has-error'] = [(CLIENT, '''	errorStatus := false
	for _, status := range statuses {
		if status == "error" {
			errorStatus = true
		}
	}
	if !errorStatus {
		return nil
	}
''', '''	if !containsError(statuses) {
		return nil
	}
'''), (CLIENT, '''func printResponseErrors(''', '''func containsError(statuses []interface{}) bool {
	for _, status := range statuses {
		if status == "error" {
			return true
		}
	}

	return false
}

func printResponseErrors(''')]
R['rc-receive'] = [(CLIENT, '''	response, err := bencode.Decode(client.serverConn)
	if err != nil {
		client.Disconnect()
		return nil, err
	}

	switch response.(type) {
	case map[string]interface{}: // OK to continue
	default:
		client.Disconnect()
		return nil,
			fmt.Errorf("response could not be decoded into the expected type")
	}
	res := response.(map[string]interface{})
''', '''	res, err := client.receive()
	if err != nil {
		client.Disconnect()
		return nil, err
	}
'''), (CLIENT, '''func ResponseErrors(''', '''func (client *Client) receive() (map[string]interface{}, error) {
	response, err := bencode.Decode(client.serverConn)
	if err != nil {
		return nil, err
	}

	if res, ok := response.(map[string]interface{}); ok {
		return res, nil
	}

	return nil, fmt.Errorf("response could not be decoded into the expected type")
}

func ResponseErrors(''')]
R['rc-simple'] = [(CLIENT, '''				_, err := client.sendRequest(
					map[string]interface{}{"op": "new-score"},
				)
				if err != nil {
					return err
				}

				return nil
''', '''				return client.request("new-score")
'''), (CLIENT, '''				_, err := client.sendRequest(map[string]interface{}{"op": "stop"})
				if err != nil {
					return err
				}

				return nil
''', '''				return client.request("stop")
'''), (CLIENT, '''func (client *Client) scoreText() ''', '''// request sends a request whose answer is of no interest.
func (client *Client) request(op string) error {
	_, err := client.sendRequest(map[string]interface{}{"op": op})
	return err
}

func (client *Client) scoreText() ''')]
R['rc-filename'] = [(CLIENT, '''				switch len(args) {
				case 0:
					if client.inputFilepath == "" {
						return fmt.Errorf("please specify the path to a file to load")
					}
				case 1:
					client.inputFilepath = args[0]
				default:
					return invalidArgsError(args)
				}

				contents, err := os.ReadFile(client.inputFilepath)
''', '''				if len(args) > 1 {
					return invalidArgsError(args)
				}
				if len(args) == 1 {
					client.inputFilepath = args[0]
				}
				filename := client.inputFilepath
				if len(args) == 0 && filename == "" {
					return fmt.Errorf("please specify the path to a file to load")
				}

				contents, err := os.ReadFile(filename)
''')]
R['rc-line'] = [(CLIENT, '''		switch input {
		case "quit", "exit", "bye":
			client.running = false
		default:
			req := map[string]interface{}{"op": "eval-and-play", "code": input}
			_, err := client.sendRequest(req)
			if err != nil {
				fmt.Printf("ERROR: %s\\n", err)
				continue
			}
		}
''', '''		if input == "bye" || input == "exit" || input == "quit" {
			client.running = false
			continue
		}

		if _, err := client.sendRequest(
			map[string]interface{}{"op": "eval-and-play", "code": input},
		); err != nil {
			fmt.Printf("ERROR: %s\\n", err)
		}
''')]

PARTGO='client/model/part.go'
R['same-sorted-helper'] = [('client/transmitter/osc.go', '''	tempoOffsets := []float64{}
	for offset := range tempoItinerary {
		tempoOffsets = append(tempoOffsets, offset)
	}
	sort.Float64s(tempoOffsets)
''', '''	tempoOffsets := sortedOffsets(tempoItinerary)
'''), ('client/transmitter/osc.go', '''func tempoMessages(
''', '''func sortedOffsets(itinerary map[float64]float64) []float64 {
	offsets := make([]float64, 0, len(itinerary))
	for offset := range itinerary {
		offsets = append(offsets, offset)
	}
	sort.Float64s(offsets)
	return offsets
}

func tempoMessages(
''')]
R['same-sort-slice'] = [('client/interop/musicxml/importer/importer.go', '''	sort.Strings(partIDs)
''', '''	sort.Slice(partIDs, func(i, j int) bool { return partIDs[i] < partIDs[j] })
''')]
R['same-json-helper'] = [('client/model/score.go', '''	aliases := json.Object()
	for alias, parts := range score.Aliases {
		partIDs := json.Array()
		for _, part := range parts {
			partIDs.ArrayAppend(part.ID())
		}

		aliases.Set(partIDs, alias)
	}
''', '''	aliases := json.Object()
	for alias, parts := range score.Aliases {
		aliases.Set(partIDs(parts), alias)
	}
'''), ('client/model/score.go', '''// JSON implements RepresentableAsJSON.JSON.
func (score *Score) JSON() *json.Container {''', '''func partIDs(parts []*Part) *json.Container {
	ids := json.Array()
	for _, part := range parts {
		ids.ArrayAppend(part.ID())
	}
	return ids
}

// JSON implements RepresentableAsJSON.JSON.
func (score *Score) JSON() *json.Container {''')]
R['same-continue'] = [(PARTGO, '''	for _, namedParts := range score.Aliases {
		if len(namedParts) == 1 {
			part := namedParts[0]
			if part.StockInstrument.Name() == stock {
				results = append(results, part)
			}
		}
	}
''', '''	for alias := range score.Aliases {
		namedParts := score.Aliases[alias]
		if len(namedParts) != 1 || namedParts[0].StockInstrument.Name() != stock {
			continue
		}
		results = append(results, namedParts[0])
	}
''')]
R['same-contains'] = [(PARTGO, '''		isNamedPart := false
		for _, namedParts := range score.Aliases {
			for _, namedPart := range namedParts {
				if namedPart == part {
					isNamedPart = true
				}
			}
		}

		if !isNamedPart && part''', '''		if !score.isNamed(part) && part'''), (PARTGO, '''// AliasedStockInstruments returns the list''', '''func (score *Score) isNamed(part *Part) bool {
	for _, namedParts := range score.Aliases {
		for _, namedPart := range namedParts {
			if namedPart == part {
				return true
			}
		}
	}
	return false
}

// AliasedStockInstruments returns the list''')]
R['same-letter'] = [('client/interop/musicxml/importer/util.go', '''	for letter, interval := range model.NoteLetterIntervals {
		if interval <= remainder &&
			interval > model.NoteLetterIntervals[noteLetter] {
			noteLetter = letter
		}
	}
''', '''	closest := model.NoteLetterIntervals[noteLetter]
	for letter, interval := range model.NoteLetterIntervals {
		if interval > remainder || interval <= closest {
			continue
		}
		noteLetter, closest = letter, interval
	}
''')]
R['same-letters-in-order'] = [('client/interop/musicxml/importer/util.go', '''	for letter, interval := range model.NoteLetterIntervals {
		if interval <= remainder &&
			interval > model.NoteLetterIntervals[noteLetter] {
			noteLetter = letter
		}
	}
''', '''	for letter := model.A; letter <= model.G; letter++ {
		if interval := model.NoteLetterIntervals[letter]; interval <= remainder &&
			interval > model.NoteLetterIntervals[noteLetter] {
			noteLetter = letter
		}
	}
''')]
R['same-help'] = [('client/repl/client.go', '''	sortedKeys := []string{}
	maxKeyLength := 0
	for k := range replCommands {
		sortedKeys = append(sortedKeys, k)
		if len(k) > maxKeyLength {
			maxKeyLength = len(k)
		}
	}
	sort.Strings(sortedKeys)
''', '''	sortedKeys := make([]string, 0, len(replCommands))
	for k := range replCommands {
		sortedKeys = append(sortedKeys, k)
	}
	sort.Strings(sortedKeys)

	maxKeyLength := 0
	for _, k := range sortedKeys {
		if len(k) > maxKeyLength {
			maxKeyLength = len(k)
		}
	}
''')]
R['same-voice-aliases'] = [('client/model/voice.go', '''		for i, partsPart := range score.Parts {
			if partsPart.origin == part.origin {
				score.Parts[i] = lastVoiceToFinish
			}
		}

		for _, parts := range score.Aliases {
			for i, aliasPart := range parts {
				if aliasPart.origin == part.origin {
					parts[i] = lastVoiceToFinish
				}
			}
		}
''', '''		replace := func(parts []*Part) {
			for i := range parts {
				if parts[i].origin == part.origin {
					parts[i] = lastVoiceToFinish
				}
			}
		}

		replace(score.Parts)
		for _, parts := range score.Aliases {
			replace(parts)
		}
''')]
R['same-itinerary'] = [('client/model/score.go', '''		if part.TempoRole != TempoRoleMaster {
			continue
		}

		for offset, tempo := range part.TempoValues {
			itinerary[offset] = tempo
		}
''', '''		if part.TempoRole == TempoRoleMaster {
			for offset := range part.TempoValues {
				itinerary[offset] = part.TempoValues[offset]
			}
		}
''')]
R['same-key-json'] = [('client/model/key.go', '''	for letter, accidentals := range ks {
		accidentalsArray := json.Array()
		for _, accidental := range accidentals {
			accidentalsArray.ArrayAppend(accidental.String())
		}

		object.Set(accidentalsArray, letter.String())
	}
''', '''	for _, letter := range []NoteLetter{C, D, E, F, G, A, B} {
		accidentals, present := ks[letter]
		if !present {
			continue
		}

		accidentalsArray := json.Array()
		for _, accidental := range accidentals {
			accidentalsArray.ArrayAppend(accidental.String())
		}

		object.Set(accidentalsArray, letter.String())
	}
''')]
R['same-note-state'] = [('client/interop/musicxml/importer/optimizer.go', '''	for noteLetter := range model.NoteLetterIntervals {
		opt.currentNoteState[noteLetter] = false
	}
''', '''	state := opt.currentNoteState
	for noteLetter := range model.NoteLetterIntervals {
		if state[noteLetter] {
			state[noteLetter] = false
			continue
		}
		state[noteLetter] = false
	}
''')]
R['same-voices-sorted'] = [('client/model/voice.go', '''	return nil
}

// DurationMs implements ScoreUpdate.DurationMs by returning 0, since a voice
// marker is conceptually instantaneous.
func (VoiceGroupEndMarker)''', '''	var none error
	return none
}

// DurationMs implements ScoreUpdate.DurationMs by returning 0, since a voice
// marker is conceptually instantaneous.
func (VoiceGroupEndMarker)''')]

R['same-max-helper'] = [('client/repl/server.go', '''				offsetRounded := int32(math.Round(offset))
				if offsetRounded > newOffset {
					newOffset = offsetRounded
				}
''', '''				newOffset = laterOf(newOffset, int32(math.Round(offset)))
'''), ('client/repl/server.go', '''// RunServer ''', '''func laterOf(a int32, b int32) int32 {
	if a > b {
		return a
	}
	return b
}

// RunServer ''')]
FM='client/parser/format.go'
R['C22-lisp-method']=[(FM,"""			var lispString func(ASTNode) (string, error)
			lispString = func(lisp ASTNode) (string, error) {
				switch lisp.Type {

				default:
					return "", fmt.Errorf(
						"unexpected LispListNode %#v during formatting", lisp,
					)

				case LispListNode:
					texts := []string{}

					for _, child := range lisp.Children {
						text, err := lispString(child)
						if err != nil {
							return "", err
						}

						texts = append(texts, text)
					}

					return fmt.Sprintf("(%s)", strings.Join(texts, " ")), nil

				case LispNumberNode:
					switch num := lisp.Literal.(type) {
					default:
						return "", fmt.Errorf(
							"unexpected LispNumberNode %#v during formatting",
							num,
						)
					case float64:
						return strconv.FormatFloat(
							num, 'f', -1, 64,
						), nil
					case int32:
						return fmt.Sprintf("%d", num), nil
					}

				case LispQuotedFormNode:
					form, err := lispString(lisp.Children[0])
					if err != nil {
						return "", err
					}

					return fmt.Sprintf("'%s", form), nil

				case LispStringNode:
					return fmt.Sprintf("\\"%s\\"", lisp.Literal.(string)), nil

				case LispSymbolNode:
					return lisp.Literal.(string), nil

				}
			}

			text, err := lispString(node)
""","""			text, err := lispString(node)
"""),(FM,"""// formatInnerEvents handles formatting of inner""","""// lispString writes a Lisp form as a string.
func lispString(lisp ASTNode) (string, error) {
	switch lisp.Type {
	case LispListNode:
		texts := make([]string, 0, len(lisp.Children))
		for i := 0; i < len(lisp.Children); i++ {
			text, err := lispString(lisp.Children[i])
			if err != nil {
				return "", err
			}
			texts = append(texts, text)
		}
		return fmt.Sprintf("(%s)", strings.Join(texts, " ")), nil

	case LispNumberNode:
		switch num := lisp.Literal.(type) {
		case int32:
			return fmt.Sprintf("%d", num), nil
		case float64:
			return strconv.FormatFloat(num, 'f', -1, 64), nil
		default:
			return "", fmt.Errorf(
				"unexpected LispNumberNode %#v during formatting",
				num,
			)
		}

	case LispQuotedFormNode:
		form, err := lispString(lisp.Children[0])
		if err != nil {
			return "", err
		}
		return fmt.Sprintf("'%s", form), nil

	case LispStringNode:
		return fmt.Sprintf("\\"%s\\"", lisp.Literal.(string)), nil

	case LispSymbolNode:
		return lisp.Literal.(string), nil
	}

	return "", fmt.Errorf(
		"unexpected LispListNode %#v during formatting", lisp,
	)
}

// formatInnerEvents handles formatting of inner""")]
R['C22-note-helpers']=[(FM,"""			pitchText := strings.Builder{}
			pitchText.WriteRune(letter.Literal.(rune))

			if len(laa.Children) > 1 {
				accidentals, err := laa.Children[1].expectNodeType(
					NoteAccidentalsNode,
				)
				if err != nil {
					return err
				}

				for _, child := range accidentals.Children {
					switch child.Type {
					default:
						return fmt.Errorf(
							"unexpected NoteAccidentalsNode %#v during formatting",
							child,
						)
					case FlatNode:
						pitchText.WriteString("-")
					case NaturalNode:
						pitchText.WriteString("_")
					case SharpNode:
						pitchText.WriteString("+")
					}
				}
			}

			slurText := ""
			for _, child := range node.Children[1:] {
				if child.Type == TieNode {
					slurText = "~"
				}
			}
""","""			pitchText := strings.Builder{}
			pitchText.WriteRune(letter.Literal.(rune))

			if len(laa.Children) > 1 {
				accidentals, err := laa.Children[1].expectNodeType(
					NoteAccidentalsNode,
				)
				if err != nil {
					return err
				}

				if err := writeAccidentals(&pitchText, accidentals); err != nil {
					return err
				}
			}

			slurText := slurText(node)
"""),(FM,"""// formatInnerEvents handles formatting of inner""","""func writeAccidentals(text *strings.Builder, accidentals ASTNode) error {
	for _, child := range accidentals.Children {
		if child.Type == FlatNode {
			text.WriteString("-")
		} else if child.Type == SharpNode {
			text.WriteString("+")
		} else if child.Type == NaturalNode {
			text.WriteString("_")
		} else {
			return fmt.Errorf(
				"unexpected NoteAccidentalsNode %#v during formatting",
				child,
			)
		}
	}
	return nil
}

// slurText is what a note is followed by when it is slurred.
func slurText(note ASTNode) string {
	for i := 1; i < len(note.Children); i++ {
		if note.Children[i].Type == TieNode {
			return "~"
		}
	}
	return ""
}

// formatInnerEvents handles formatting of inner""")]
R['C22-chord-last']=[(FM,"""			lastNoteOrRest := 0
			for i, child := range node.Children {
				if child.Type == NoteNode || child.Type == RestNode {
					lastNoteOrRest = i
				}
			}

			for i, child := range node.Children {
				err := f.formatInnerEvents(child)
				if err != nil {
					return err
				}

				if child.Type == NoteNode || child.Type == RestNode {
					if i < lastNoteOrRest {
						f.write("/")
					}
				}
			}
""","""			lastNoteOrRest := len(node.Children) - 1
			for lastNoteOrRest > 0 && !sounds(node.Children[lastNoteOrRest]) {
				lastNoteOrRest--
			}

			for i, child := range node.Children {
				if err := f.formatInnerEvents(child); err != nil {
					return err
				}

				if sounds(child) && i < lastNoteOrRest {
					f.write("/")
				}
			}
"""),(FM,"""// formatInnerEvents handles formatting of inner""","""// sounds: notes and rests
func sounds(node ASTNode) bool {
	return node.Type == NoteNode || node.Type == RestNode
}

// formatInnerEvents handles formatting of inner""")]
R['C22-length-texts']=[(FM,"""			numDots := 0
			if len(child.Children) > 1 {
				dotsNode, err := child.Children[1].expectNodeType(DotsNode)
				if err != nil {
					return err
				}

				numDots = int(dotsNode.Literal.(int32))
			}

			text.WriteString(fmt.Sprintf(
				"%s%s",
				strconv.FormatFloat(denom.Literal.(float64), 'f', -1, 64),
				strings.Repeat(".", numDots),
			))

			shouldTie = true
""","""			dots := ""
			if len(child.Children) > 1 {
				dotsNode, err := child.Children[1].expectNodeType(DotsNode)
				if err != nil {
					return err
				}

				dots = strings.Repeat(".", int(dotsNode.Literal.(int32)))
			}

			text.WriteString(formatNumber(denom) + dots)

			shouldTie = true
"""),(FM,"""			text.WriteString(fmt.Sprintf(
				"%sms",
				strconv.FormatFloat(child.Literal.(float64), 'f', -1, 64),
			))
""","""			text.WriteString(formatNumber(child) + "ms")
"""),(FM,"""			text.WriteString(fmt.Sprintf(
				"%ss",
				strconv.FormatFloat(child.Literal.(float64), 'f', -1, 64),
			))
""","""			text.WriteString(formatNumber(child) + "s")
"""),(FM,"""// formatWithDuration handles duration""","""func formatNumber(node ASTNode) string {
	return strconv.FormatFloat(node.Literal.(float64), 'f', -1, 64)
}

// formatWithDuration handles duration""")]
R['C22-layout']=[(FM,"""	f.texts = append(f.texts, text)
	if len(f.line()) > f.softWrapLen && f.varDef == None {
		f.texts = f.texts[0 : len(f.texts)-1]
		f.flush()
		f.texts = append(f.texts, text)
	}
""","""	before := f.texts
	f.texts = append(f.texts, text)
	if f.varDef == None && len(f.line()) > f.softWrapLen {
		f.texts = before
		f.flush()
		f.texts = append(f.texts, text)
	}
"""),(FM,"""	if len(f.texts) > 0 && f.varDef == None {
		f.out.Write([]byte(f.line() + "\\n"))
		f.texts = []string{}
	}
""","""	if f.varDef != None || len(f.texts) == 0 {
		return
	}
	f.out.Write([]byte(f.line() + "\\n"))
	f.texts = nil
"""),(FM,"""	text := strings.Join(f.texts, " ")
	if len(text) == 0 {
		return text
	} else {
		indent := strings.Repeat(f.indentText, f.indentLevel)
		return indent + text
	}
""","""	text := strings.Join(f.texts, " ")
	if text == "" {
		return ""
	}
	return strings.Repeat(f.indentText, f.indentLevel) + text
""")]
R['C22-part-helper']=[(FM,"""			names := []string{}
			for _, child := range partNames.Children {
				partNameNode, err := child.expectNodeType(PartNameNode)
				if err != nil {
					return err
				}

				names = append(names, partNameNode.Literal.(string))
			}
			namesText := strings.Join(names, "/")
""","""			namesText, err := joinNames(partNames)
			if err != nil {
				return err
			}
"""),(FM,"""				f.write(fmt.Sprintf(
					"%s:",
					namesText,
				))
""","""				f.write(namesText + ":")
"""),(FM,"""// formatTopLevel handles""","""func joinNames(partNames ASTNode) (string, error) {
	names := make([]string, 0, len(partNames.Children))
	for i := range partNames.Children {
		partNameNode, err := partNames.Children[i].expectNodeType(PartNameNode)
		if err != nil {
			return "", err
		}

		names = append(names, partNameNode.Literal.(string))
	}
	return strings.Join(names, "/"), nil
}

// formatTopLevel handles""")]
R['C22-cram-rest']=[(FM,"""			if len(node.Children) > 1 {
				duration, err := node.Children[1].expectNodeType(DurationNode)
				if err != nil {
					return err
				}

				err = f.formatWithDuration("}", duration, "")
				if err != nil {
					return err
				}
			} else {
				f.write("}")
			}
""","""			err = f.formatOptionalDuration("}", node.Children[1:])
			if err != nil {
				return err
			}
"""),(FM,"""			if len(node.Children) > 0 {
				duration, err := node.Children[0].expectNodeType(DurationNode)
				if err != nil {
					return err
				}

				err = f.formatWithDuration("r", duration, "")
				if err != nil {
					return err
				}
			} else {
				f.write("r")
			}
""","""			if err := f.formatOptionalDuration("r", node.Children); err != nil {
				return err
			}
"""),(FM,"""// formatInnerEvents handles formatting of inner""","""func (f *formatter) formatOptionalDuration(pre string, nodes []ASTNode) error {
	if len(nodes) == 0 {
		f.write(pre)
		return nil
	}

	duration, err := nodes[0].expectNodeType(DurationNode)
	if err != nil {
		return err
	}

	return f.formatWithDuration(pre, duration, "")
}

// formatInnerEvents handles formatting of inner""")]
R['C22-ranges']=[(FM,"""				if frNum == lrNum {
					ranges = append(ranges,
						fmt.Sprintf("%d", frNum),
					)
				} else {
					ranges = append(ranges,
						fmt.Sprintf("%d-%d", frNum, lrNum),
					)
				}
""","""				text := fmt.Sprintf("%d", frNum)
				if lrNum != frNum {
					text = fmt.Sprintf("%d-%d", frNum, lrNum)
				}
				ranges = append(ranges, text)
"""),(FM,"""			f.write(fmt.Sprintf("'%s", strings.Join(ranges, ",")))
""","""			f.write("'" + strings.Join(ranges, ","))
""")]

R['C23-typed']=[('client/model/note.go','''	return json.Object("type", "note", "value", value)
}
''','''	return typed("note", value)
}

func typed(name string, value interface{}) *json.Container {
	return json.Object("type", name, "value", value)
}
'''),('client/model/cram.go','''	return json.Object("type", "cram", "value", value)''','''	return typed("cram", value)'''),
('client/model/part.go','''	return json.Object("type", "part-declaration", "value", value)''','''	return typed("part-declaration", value)''')]
R['C23-events-helper']=[('client/model/variable.go','''	events := json.Array()
	for _, event := range vd.Events {
		events.ArrayAppend(event.JSON())
	}
''','''	events := dataOf(vd.Events)
'''),('client/model/cram.go','''	events := json.Array()
	for _, event := range cram.Events {
		events.ArrayAppend(event.JSON())
	}

	value := json.Object("events", events)
''','''	value := json.Object("events", dataOf(cram.Events))
'''),('client/model/cram.go','''// JSON implements RepresentableAsJSON.JSON.
func (cram''','''func dataOf(events []ScoreUpdate) *json.Container {
	array := json.Array()
	for i := 0; i < len(events); i++ {
		array.ArrayAppend(events[i].JSON())
	}
	return array
}

// JSON implements RepresentableAsJSON.JSON.
func (cram'''),('client/model/score.go','''		eventsArray := json.Array()
		for _, event := range events {
			eventsArray.ArrayAppend(event.JSON())
		}

		variables.Set(eventsArray, name)
''','''		variables.Set(dataOf(events), name)
''')]
R['C23-note-order']=[('client/model/note.go','''	if note.Duration.Components != nil {
		value.Set(note.Duration.JSON(), "duration")
	}

	if note.Slurred {
		value.Set(true, "slurred?")
	}
''','''	if note.Slurred {
		value.Set(true, "slurred?")
	}

	if components := note.Duration.Components; components != nil {
		duration := note.Duration.JSON()
		value.Set(duration, "duration")
	}
'''),('client/model/note.go','''		"part", note.Part.ID(),
		"midi-channel", note.MidiChannel,
		"midi-note", note.MidiNote,
		"offset", note.Offset,
''','''		"offset", note.Offset,
		"part", note.Part.ID(),
		"midi-note", note.MidiNote,
		"midi-channel", note.MidiChannel,
''')]
R['C23-tree']=[('client/parser/ast.go','''		literal := node.Literal

		switch node.Type {
		case NoteLetterNode:
			literal = fmt.Sprintf("%c", literal)
		}

		nodeJSON.Set(literal, "literal")
	}

	if node.SourceContext.Line > 0 {
		nodeJSON.Set(
			json.Object(
				"line", node.SourceContext.Line,
				"column", node.SourceContext.Column,
			),
			"source-context")
	}
''','''		if node.Type == NoteLetterNode {
			nodeJSON.Set(fmt.Sprintf("%c", node.Literal), "literal")
		} else {
			nodeJSON.Set(node.Literal, "literal")
		}
	}

	if place := node.SourceContext; place.Line >= 1 {
		where := json.Object("column", place.Column, "line", place.Line)
		nodeJSON.Set(where, "source-context")
	}
''')]
R['C23-score-parts']=[('client/model/score.go','''	currentParts := json.Array()
	for _, part := range score.CurrentParts {
		currentParts.ArrayAppend(part.ID())
	}

	aliases := json.Object()
	for alias, parts := range score.Aliases {
		partIDs := json.Array()
		for _, part := range parts {
			partIDs.ArrayAppend(part.ID())
		}

		aliases.Set(partIDs, alias)
	}
''','''	ids := func(parts []*Part) *json.Container {
		array := json.Array()
		for i := range parts {
			array.ArrayAppend(parts[i].ID())
		}
		return array
	}

	currentParts := ids(score.CurrentParts)

	aliases := json.Object()
	for alias := range score.Aliases {
		aliases.Set(ids(score.Aliases[alias]), alias)
	}
''')]
R['C23-attribute-data']=[('client/model/attributes.go','''	return json.Object("attribute", "panning", "value", ps.Panning)''','''	return attributeData("panning", ps.Panning)'''),
('client/model/attributes.go','''	return json.Object("attribute", "volume", "value", vs.Volume)
}
''','''	return attributeData("volume", vs.Volume)
}

func attributeData(name string, value interface{}) *json.Container {
	data := json.Object("value", value, "attribute", name)
	return data
}
''')]


RS='client/repl/server.go'; RC='client/cmd/repl.go'
R['C24-start-order']=[(RS,'''	l, err := net.Listen("tcp", "127.0.0.1:"+strconv.Itoa(server.Port))
	if err != nil {
		return nil, err
	}
''','''	address := fmt.Sprintf("127.0.0.1:%d", server.Port)
	l, err := net.Listen("tcp", address)
	if err != nil {
		return nil, err
	}

	go server.handleRequests()
'''),(RS,'''	go server.listen(l)
	go server.handleRequests()

	return''','''	go server.listen(l)

	return''')]
R['C24-close-inline']=[(RS,'''	server.removePortFile()
	server.removeStateFile()
}
''','''	for _, file := range []string{server.stateFile(), nREPLPortFile} {
		os.Remove(file)
	}
}
'''),(RS,'''func (server *Server) removePortFile() {
	os.Remove(nREPLPortFile)
}

func (server *Server) removeStateFile() {
	os.Remove(server.stateFile())
}

''','')]
R['C24-state-helper']=[(RS,'''	server.writeStateFile()

	for {
		server.touchStateFile()
		time.Sleep(10 * time.Second)
	}
''','''	server.writeStateFile()
	const interval = 10 * time.Second

	for ; ; time.Sleep(interval) {
		server.touchStateFile()
	}
'''),(RS,'''	state := system.REPLServerState{
		ID:   server.id,
		Port: server.Port,
		PID:  os.Getpid(),
	}

	stateJSON, err := encjson.Marshal(state)
''','''	state := server.describeState()

	stateJSON, err := encjson.Marshal(state)
'''),(RS,'''func (server *Server) writeStateFile() {
''','''func (server *Server) describeState() system.REPLServerState {
	var state system.REPLServerState
	state.ID, state.Port = server.id, server.Port
	state.PID = os.Getpid()
	return state
}

func (server *Server) writeStateFile() {
''')]
R['C24-run-server-helper']=[(RC,'''			if replPort == -1 {
				port, err := system.FindOpenPort()
				if err != nil {
					return err
				}
				replPort = port
			}
''','''			if err := choosePort(); err != nil {
				return err
			}
'''),(RC,'''			if startREPLClient {
				go func() {
					<-signals
					server.Close()
				}()
			} else {
				<-signals
				server.Close()
			}
''','''			closeOnSignal := func() {
				<-signals
				server.Close()
			}
			if !startREPLClient {
				closeOnSignal()
			} else {
				go closeOnSignal()
			}
'''),(RC,'''func errInvalidNREPLMessage(''','''func choosePort() error {
	if replPort != -1 {
		return nil
	}
	port, err := system.FindOpenPort()
	if err == nil {
		replPort = port
	}
	return err
}

func errInvalidNREPLMessage(''')]
R['C24-message-checks']=[(RC,'''	msg, ok := parsed.Data().(map[string]interface{})
	if !ok {
		return errInvalidNREPLMessage(message)
	}
''','''	data := parsed.Data()
	msg, ok := data.(map[string]interface{})
	if !ok {
		return errInvalidNREPLMessage(message)
	}
'''),(RC,'''	if len(repl.ResponseErrors(res)) > 0 {''','''	if problems := repl.ResponseErrors(res); len(problems) != 0 {''')]

if __name__=='__main__':
    for k,v in R.items(): mk(f'/verif/refactors/{k}.diff',v)
    print(len(R))
