NOTE = ("Decided for the current source on all paths, by inlining canonicalisation over go/ssa; trusts the checker, go/ssa and the "
        "Go standard library, and says nothing about floating-point rounding. ")
T = "must-facts dataflow and value-canonicalisation over go/ssa (custom analyser)"
MODEL = "client/model/"

prop("C01", "Every note yields one event per playing part, computed from that part's state",
 "Evaluating a note appends exactly one note event for each current part, in score order (none where its audible duration is 0; a MIDI number outside 0..127 is an error), and nothing other than a note creates note events (a rest is silent). "
 "The event carries that part, its offset before the note, the MIDI number of the pitch under the part's octave, key signature and transposition, "
 "a duration of the note's (or the part's default) length in ms at the part's tempo times its time scale, the same times quantization as audible duration (unless slurred), and the part's volume, track volume and panning. "
 "A duration written on a note or rest becomes the default duration of each part that plays it.",
 ["programs","histories"], "for every score, every history of attribute changes before the note, and every set of current parts",
 "The tests sample single notes with one part and a few attribute values; the statement ranges over all scores and part states.",
 [MODEL+"note.go", MODEL+"pitch.go", MODEL+"part.go"],
 [("addNoteOrRest","client/model/note.go"),("Note.UpdateScore / Rest.UpdateScore","client/model/note.go"),("CalculateMidiNote implementations","client/model/pitch.go")],
 ["Score.Events"], [dict(name="Score.Events", meaning="the evaluated notes")],
 technique=T, note=NOTE+"Exact canonical value of each event field, exactly-once append, ordering of reads before the part moves.")

prop("C02", "Time moves forward by exactly what each event stands for",
 "A note or rest outside a chord moves each current part forward by its scaled duration; a chord moves each part forward by the shortest of its notes and rests, its notes all starting together; a cram fits its contents, scaled, in its own duration; jumping to a marker moves parts to the marker's offset; no other event moves a part. "
 "Whenever a part moves, its previous offset is remembered first. "
 "Durations convert to milliseconds by definition: a note length of denominator d with n dots is 4/d*(2-2^-n) beats, a beat is 60000/tempo ms, and millisecond/second lengths ignore tempo; the predicted duration of an event equals that of playing it.",
 ["programs","histories"], "for every score and every sequence of events, parts, tempos and nested crams",
 "Tests check a few offsets in small scores; the arithmetic must hold for every nesting, tempo and part set.",
 [MODEL+"note.go", MODEL+"chord.go", MODEL+"cram.go", MODEL+"duration.go", MODEL+"marker.go"],
 [("Chord.UpdateScore","client/model/chord.go"),("Cram.UpdateScore","client/model/cram.go"),("Duration.Ms / NoteLength.Beats","client/model/duration.go"),("DurationMs implementations","client/model/*.go")],
 ["Part.CurrentOffset","NoteEvent.Offset"],
 technique=T, note=NOTE+"Exact canonical form of every offset write and every duration formula.")

prop("C03", "A local attribute change sets exactly its property, for each current part",
 "Each attribute change (tempo, metric modulation, octave, octave up/down, volume, track volume, dynamic marking, panning, quantization, duration, key signature, transposition, reference pitch, MIDI channel) sets exactly the part property it names to the value given (octave up/down by one, a metric modulation multiplies the tempo, a dynamic marking looks its volume up), and touches no other property. "
 "It applies to every current part exactly once and takes no time. "
 "A local tempo change is also recorded at the part's current offset, with the new tempo; a global one is not recorded in the part. "
 "Setting MIDI channel 9 is refused for a part that is not percussion. The change is remembered as the part's local override.",
 ["programs","histories"], "for every attribute, every value, every part state and every set of current parts",
 "Tests set a few attributes in isolation; that nothing else changes, for every history, is a statement about all code paths.",
 [MODEL+"attributes.go", MODEL+"part.go"],
 [("PartUpdate implementations (updatePart)","client/model/attributes.go"),("AttributeUpdate.UpdateScore","client/model/attributes.go")],
 ["Part fields"], [dict(name="Part.TempoValues", meaning="the part's local tempo changes by offset")],
 technique=T, note=NOTE+"Frame condition and exact canonical value of every write made by every attribute change.")

prop("C04", "Global attributes reach every part, at their offset, unless overridden locally",
 "A global attribute change is recorded at the current parts' common offset (0 if there are none), after those already recorded there; it is refused if the current parts are at different offsets. "
 "The recorded offsets are kept sorted without duplicates. Before a note, rest or chord is placed and before a jump to a marker (once per chord), "
 "every current part receives, in order, all global changes recorded after its last offset and up to and including its current offset, except those of the same kind as the part's local override; the override is then cleared. "
 "The exported tempo map starts at 120 BPM and contains the master part's tempo changes and every global tempo change at its offset.",
 ["programs","histories"], "for every score with global attributes, and every order in which parts reach their offsets",
 "Depends on the history of offsets of several parts; the tests have a handful of scores.",
 [MODEL+"attributes.go", MODEL+"score.go"],
 [("GlobalAttributeUpdate.UpdateScore","client/model/attributes.go"),("GlobalAttributes.InWindow","client/model/attributes.go"),("Score.ApplyGlobalAttributes","client/model/score.go"),("Score.TempoItinerary","client/model/score.go")],
 ["Part fields","Score.TempoItinerary"], [dict(name="GlobalAttributes.itinerary", meaning="changes by offset")],
 technique=T, note=NOTE+"Window bounds, ordering, per-part application and recording are decided from must-facts at each effect.")

prop("C05", "Lisp attributes check their arguments and mean what their name says",
 "Every Lisp builtin yields the score update its name says with the value computed as documented: `name` is local and `name!` is the same change made globally; volume, track-volume and panning are 0..100 divided by 100, quantization is at least 0 divided by 100, tempo and reference pitch are at least 1, MIDI channels are whole numbers 0..15, octave, transposition and midi-note are whole numbers; "
 "dynamic markings from pppppp to ffffff increase within (0,1]. "
 "Arguments outside a signature's types or value range are errors, not values. "
 "A call uses the first signature that matches its evaluated arguments; an unknown name, a non-function or unmatched arguments are errors; a quoted form evaluates to itself unevaluated.",
 ["programs"], "for every builtin, every signature and every argument list",
 "Tests call a few builtins with good arguments; the domain checks must hold for every value of every builtin.",
 [MODEL+"lisp.go", MODEL+"attributes.go"],
 [("init of builtins (defn, defattribute)","client/model/lisp.go"),("LispList.Eval","client/model/lisp.go"),("positiveNumber, wholeNumber, percentage","client/model/lisp.go")],
 ["LispScoreUpdate"], None,
 technique="extraction of every builtin registration and decision of its outcomes, guards and domain over go/ssa (custom analyser)",
 note=NOTE+"Every outcome of every builtin signature is compared with a specification of name, domain and value.")

prop("C06", "Pitches and key signatures follow the rules of music theory",
 "The MIDI number of a pitch is 12*(octave+1) plus its letter's semitones (C0 D2 E4 F5 G7 A9 B11), plus one per sharp and minus one per flat, plus the part's transposition; accidentals written on the note win over the key signature's, and an explicit MIDI number is only transposed. "
 "A key signature given by scale is that of its tonic and mode on the circle of fifths (sharps F C G D A E B, flats B E A D G C F), with the accidentals of the tonic shifting every letter; a spelled one gives each letter exactly its own accidentals. "
 "Unknown note letters, accidentals and scale names are errors.",
 ["inputs"], "for every pitch, octave, transposition, key signature, tonic and mode",
 "Tests check a few keys; the tables and formulas cover all tonics and modes.",
 [MODEL+"pitch.go", MODEL+"key.go", MODEL+"lisp.go"],
 [("LetterAndAccidentals.CalculateMidiNote","client/model/pitch.go"),("KeySignatureFromScale, partialCircleOfFifths, shiftKey","client/model/key.go"),("scaleType, keySignatureFromString","client/model/lisp.go")],
 ["NoteEvent.MidiNote"], None,
 technique="table and decision-list extraction with canonical formulas over go/ssa (custom analyser)",
 note=NOTE+"Tables, decision lists and formulas compared with the definition; loops by their canonical update.")

prop("C07", "Notes of different parts never collide on a MIDI channel",
 "A note's channel is 9 if and only if its part is percussion (unless the score sets an explicit channel); otherwise it is a channel 0 to 15 other than 9 that is unused, used by that part alone, or on which no other part's note is sounding (offset plus audible duration, strict overlap) during the note. "
 "An explicitly set channel is used, or refused with an error. Every assignment is recorded exactly once for the part. "
 "Only channel assignment and the midi-channel attribute change a part's channel: a new part has none (-1), and only the attribute makes it explicit.",
 ["programs","histories"], "for every score, number of parts and interleaving of their notes",
 "Channel choice depends on every earlier note of every part; tests sample a few scores.",
 [MODEL+"midi.go", MODEL+"note.go", MODEL+"part.go", MODEL+"attributes.go"],
 [("Score.assignMidiChannel","client/model/midi.go"),("MidiChannelUpdate","client/model/attributes.go")],
 ["NoteEvent.MidiChannel"], [dict(name="Score.midiChannelUsage", meaning="parts that have used each channel")],
 technique=T, note=NOTE+"The guards of each choice, of each mark of an unavailable channel and of each record are compared with the definition of a collision.")

prop("C08", "A part declaration selects exactly the parts it names",
 "A declaration of one name without an alias refers to the parts of that alias, else to the unnamed parts of that stock instrument, else to a new part; with an alias it always makes a new part. It is refused when the name is an alias and a new alias is given, when the alias is taken, and when unnamed and aliased instances of an instrument would mix. "
 "A group refers, in order and without duplicates, to the parts of every name listed; duplicate names and mixtures of named and stock members are refused; a group of stock instruments given an alias is made of new parts. "
 "A declaration first ends the open voice group, adds missing parts to the score once, makes them the current parts, and defines the alias, alias.instrument and alias.member names. The first part of the score is the tempo master. "
 "A new part starts with the documented defaults; every General MIDI instrument has its program number, names and aliases.",
 ["programs","histories"], "for every sequence of part declarations and every set of names and aliases",
 "Which parts a declaration means depends on all earlier declarations; tests sample a few combinations.",
 [MODEL+"part.go", MODEL+"instruments.go"],
 [("determineParts","client/model/part.go"),("PartDeclaration.UpdateScore","client/model/part.go"),("Score.NewPart","client/model/part.go"),("instrument tables","client/model/instruments.go")],
 ["Score.CurrentParts","Score.Parts","Score.Aliases"], [dict(name="Score.Aliases", meaning="alias to parts")],
 technique=T, note=NOTE+"Each result and refusal of the selection is compared with the conditions it needs; tables are read from the source.")

prop("C09", "Voices start where the group began; the last to finish carries on",
 "All voices of a voice group start from the state the part had when the group began, whatever the other voices do, including a pending local attribute override; a voice marker continues the voice of that number if the group already has it, and starts it otherwise, for every current part. "
 "When the group ends, the voice that is furthest on carries on as the part - of several that end together, the last one begun if it is among them, else the first - in the score's parts, in the current parts and under every alias; the part then has no voices. "
 "A copy of a part has the values of all fields of the part, and a copy of an event those of all fields of the event.",
 ["programs","histories"], "for every score, every nesting of voice groups, repeats and part changes, and every set of current parts and aliases",
 "Tests check a few voice groups of one part; that voices are independent and every reference is updated is a statement about all scores.",
 [MODEL+"voice.go", MODEL+"part.go"],
 [("Part.NewVoice / Part.GetVoice","client/model/voice.go"),("VoiceMarker.UpdateScore / VoiceGroupEndMarker.UpdateScore","client/model/voice.go"),("Part.Clone","client/model/part.go")],
 ["Score.Parts","Score.CurrentParts","Score.Aliases"], [dict(name="Part.voices", meaning="the voices of the group being played"),dict(name="Part.voiceTemplate", meaning="the part as it was when the group began")],
 technique=T, note=NOTE+"Exact effects of starting, continuing and ending voices; deep copies are compared field by field with the types they copy.")

prop("C10", "Events happen in the order and as often as written; names mean what was assigned",
 "Events of a sequence, chord, cram or variable are applied once each, in the order written, until one fails; an error is reported with the source position of the event that failed and never forgotten. "
 "A repeat applies its event once for each repetition 1 to n (not at all for 0), also for the durations of a cram, and a repeat inside another leaves the outer repetition number alone; an event on certain repetitions happens, once, exactly when the current repetition lies in one of its ranges, ends included. "
 "A variable stands for the events last assigned to it, with the variables they mention replaced by their values at the time of the definition; a marker stands for the offset at which it was last placed, which must be common to the current parts. Undefined variables and markers are errors.",
 ["programs","histories"], "for every score, every nesting of events, every order of definitions and uses",
 "Tests sample a few repeats and variables; nesting, redefinition and several parts multiply beyond samples.",
 [MODEL+"repeat.go", MODEL+"repetitions.go", MODEL+"variable.go", MODEL+"marker.go", MODEL+"event_sequence.go", MODEL+"score.go"],
 [("Score.Update","client/model/score.go"),("Repeat / OnRepetitions","client/model/repeat.go, client/model/repetitions.go"),("VariableDefinition / VariableReference","client/model/variable.go"),("Marker / AtMarker","client/model/marker.go"),("VariableValue implementations","client/model/*.go")],
 ["Score.Events","Score.Variables","Score.Markers"], [dict(name="Part.currentRepetition", meaning="the repetition being played")],
 technique=T, note=NOTE+"Exact effects, loop collections and conditions of every container event; error values are followed on every path.")

OSC="client/transmitter/osc.go"
prop("C11", "The player is told exactly the notes, controls and tempos of the score",
 "Transmitting a score sends each of its notes from the start to before the end exactly once, in the order of their offsets, on the track of its part and on its own channel, with its pitch, durations and volume (of 127), at its offset less the start and the sync offset of its part. "
 "Before a note, its patch (never on channel 9), volume and panning are sent exactly when the channel is not known to have them already. Tempo changes are sent in order, from the last one at or before the start to before the end, at their offset from the start and not before it; none for an incremental update. "
 "A play message follows unless the score is only to be loaded, and for a one-off player a shutdown ten seconds after the last note ends. Start and end are given as minutes:seconds or a marker; anything else is an error. "
 "Each part has its own track, numbered from 1. The tempos of a score are those of the tempo master and, over them, the global ones; a metric modulation multiplies the tempo before it. "
 "Every message has the address, number and types of arguments that the player's parser reads, and is sent to the given port; failures are reported.",
 ["inputs","programs"], "for every score, every range and option of transmission",
 "No test covers the transmitter; what is sent depends on every note and on what was sent before on its channel.",
 [OSC, "client/transmitter/transmitter.go", MODEL+"score.go", "player/src/main/kotlin/io/alda/player/Parser.kt"],
 [("OSCTransmitter.ScoreToOSCBundle","client/transmitter/osc.go"),("tempoMessages","client/transmitter/osc.go"),("Score.Tracks, Score.TempoItinerary","client/model/score.go"),("Score.InterpretOffsetReference","client/model/score.go"),("message formats","player/src/main/kotlin/io/alda/player/Parser.kt")],
 ["OSC messages sent"], [dict(name="channelPatch, channelVolume, channelPanning", meaning="what was last sent to each channel")],
 technique="typestate of channel state, effect and path extraction over go/ssa, and agreement of message formats with the Kotlin parser (custom analyser)",
 note=NOTE+"Exact messages, their conditions and the only reasons to leave one out; the message formats of both programs are compared.")

prop("C13", "The parser accepts exactly Alda's grammar and keeps everything that was written",
 "A text is a sequence of parts, each a declaration (names joined by /, an optional alias, a colon) and its events up to the next declaration, the first possibly without one. "
 "Events are S-expressions, variable references and definitions (NAME = events up to the end of the line), octave changes, barlines, markers and jumps to them, notes, rests, chords, [event sequences], {cram expressions} with an optional duration, and voice groups; an S-expression, variable reference, note, rest, chord, sequence or cram may be repeated (*n), and an event directly in a sequence may be limited to repetitions ('1,3). "
 "Durations are tied with ~ across barlines; a ~ no length follows is a slur. A / makes a chord, with octave changes and S-expressions allowed around it; octave changes that no / follows come after the note. A voice ends at the next voice marker, V0:, a closing bracket, a new part or the end. "
 "Anything else is an error at the offending token, never dropped or skipped over, and no error is forgotten. "
 "The tree has one node for each construct, in the order of the text, none dropped or repeated, with the values of its tokens and the source position of the token that begins it (the operator's, for repeats, repetitions and definitions).",
 ["inputs"], "for every sequence of tokens",
 "Tests parse some dozens of texts; a grammar is a statement about all texts, and nestings of repeats, chords, ties and voices are seldom sampled.",
 ["client/parser/parser.go"],
 [("parser.innerEvent and the rules it calls","client/parser/parser.go"),("parser.lispList","client/parser/parser.go"),("parser.parseAST","client/parser/parser.go"),("parser.duration, noteRestOrChord (backtracking)","client/parser/parser.go")],
 ["result of parser.Parse"], [dict(name="parser.current", meaning="the position in the tokens")],
 technique="abstract interpretation of the parser over token-type sets into an automaton, compared with the reference grammar's; linear-value tracking of syntax nodes (custom analyser over go/ssa)",
 note=NOTE+"The language of each recursive rule is compared exactly with a reference grammar, including lookahead and backtracking; the reading primitives have exact specifications.")

prop("C12", "The scanner accepts exactly Alda's words, with their values and positions",
 "Every text is split into tokens from its first character to its last, ending with one end-of-file token; whitespace separates, and comments run from # to the end of the line. "
 "The words are: names (two letters, then letters, digits and _ - + ' ( ) .), alias names in double quotes, note letters a to g and r (only before what may follow a note), accidentals + - _, octaves (o and digits, < >), note lengths (a decimal denominator above 0, optionally with dots, or a number followed by ms, or by s at its end), ties ~, / : = and |, markers (%name, @name), voice markers (V, digits and a colon), *n, repetition ranges ('1-3,5), { } [ ] and parentheses; and inside S-expressions, until the last one is closed, parentheses, quotes, strings in double quotes, numbers (an optional minus sign, an optional decimal fraction) and symbols. "
 "Each token carries the type of its word, the value written (the integer, number, name, or string without its quotes) and the line and column where it begins. "
 "Anything else - a character no word begins with, an unfinished string, a number too large - is an error at the offending position, never dropped or skipped over. Lines and columns count from 1, a newline starting a new line.",
 ["inputs"], "for every text",
 "Tests scan some dozens of short texts; a lexical grammar is a statement about all texts, and positions depend on everything before.",
 ["client/parser/scanner.go"],
 [("scanner.scanToken and the functions it calls","client/parser/scanner.go"),("Scan","client/parser/scanner.go"),("scanner.advance, match, peek","client/parser/scanner.go")],
 ["result of parser.Scan"], [dict(name="scanner.current, line, column", meaning="the position in the text"),dict(name="scanner.sExpLevel", meaning="how many S-expressions are open")],
 technique="abstract interpretation of the scanner over character classes into an automaton of characters and tokens, compared with the reference lexical grammar (custom analyser over go/ssa)",
 note=NOTE+"The two languages, inside and outside S-expressions, are compared exactly, with the label of every token; the character primitives have exact specifications.")

prop("C14", "Every node of the syntax tree becomes exactly the events it stands for",
 "A syntax tree that the parser makes always has a meaning: turning it into events (score updates) fails only where something inside it fails, never because of its size or shape. "
 "The events of the root, a voice group, a part and a voice are those of their children, all of them, in order, a part's after its declaration (every name, the alias if there is one) and a voice's after its voice marker. "
 "A chord, sequence, cram or variable definition becomes one event that holds those of its children, all of them, in order; a repeat holds its one event (or a sequence of them) and how often, an event limited to repetitions holds its event and every range, first and last. "
 "A note has its letter, all its accidentals in order, its duration if it has one and its slur if it has one; a rest and a cram their duration if they have one; a duration every component in order (denominator and dots, milliseconds, seconds, barlines), with no dots unless written. "
 "Octave changes, barlines, markers, jumps, variable references and voice ends become their event with the value written. An S-expression becomes the same list, with every form in its place: numbers, strings, symbols, quoted forms and lists. "
 "Every event carries the source position of its node (a repeat that of the repeated event, a voice marker that of its number), and nothing that was written is dropped or added.",
 ["inputs"], "for every syntax tree that the parser can make",
 "Tests turn some dozens of texts into events; what is dropped is often what comes late, twice or together with something else.",
 ["client/parser/ast.go"],
 [("ASTNode.Updates","client/parser/ast.go"),("duration","client/parser/ast.go"),("literals of tokens and nodes","client/parser/scanner.go")],
 ["result of ASTNode.Updates"], None,
 technique="path-sensitive extraction of results and field effects over go/ssa, judged against the schema of the parser's trees (custom analyser)",
 note=NOTE+"Each result, each field of each event made, and each way of refusing a node is listed and judged; trees are those that C13 says the parser makes.")

REPL="client/repl/"
prop("C15", "The REPL server answers every request once and keeps its session straight",
 "Every request gets exactly one answer, on the connection it came from, with its own id and session when it has them, and the status done, or done and error with the problems. A request with no operation, an operation or code that is not a string, or an operation that is not known is refused and has no other effect. "
 "describe lists all operations; clone gives a new session; instruments, score-text, score-data, score-events and score-ast tell of the session without changing it, the last two from its text. "
 "eval-and-play parses the code, adds its events to the score, the code to the text, and sends exactly the new events, each part going on where it was; a failed evaluation leaves the text and the place reached as they were. "
 "new-score starts afresh and shuts the player in use down; load does so and evaluates the code without playing it, and then puts the player at the end of the part that ends last; replay evaluates the whole text afresh, from and to where asked; export loads it afresh, has the player write it to a file of its own, answers with the contents and leaves no file behind. When a replay or export fails, the session is as it was. "
 "Requests are handled one at a time, in the order they are received, and nothing else changes the session; a connection is read until it ends or sends what cannot be read, and then closed, and no message that came over it is lost, also when it came together with the one before. "
 "What is sent goes to the player in use; when there is none the server waits for one, and it is an error when none comes. A player that is gone or does not answer is replaced, and the pool of players is kept filled.",
 ["histories","schedules","faults"], "for every sequence of requests and every failure on the way",
 "No test covers the server; what goes wrong depends on the requests before and on failures of the player between two steps.",
 [REPL+"server.go", REPL+"player_management.go", REPL+"validation.go"],
 [("handleRequests and ops","client/repl/server.go"),("updateScoreWithInput, evalAndPlay, load, replay, export","client/repl/server.go"),("listen","client/repl/server.go"),("withTransmitter, managePlayers","client/repl/player_management.go")],
 ["answers","OSC messages sent"], [dict(name="Server.input, score, eventIndex", meaning="the session: its text, its score, and how many of its events have been sent"),dict(name="Server.player", meaning="the player process in use")],
 technique="path-sensitive symbolic extraction of the effects of handling each request into an automaton, compared with a reference automaton (custom analyser over go/ssa)",
 note=NOTE+"For each operation the language of effects, with every answer and its fields, is compared exactly with the reference, in both directions.")

prop("C16", "The pool of players is kept filled, and a player that is used is alive",
 "Reading the states of the player processes (or of the REPL servers) lists exactly the entries of this version's state directory that can be read, are not empty and hold a valid state, each with the name of its file, without .json, as its ID; the others are passed over, and only a directory that cannot be made or listed is an error. "
 "Before player states are read, state files of players and REPL servers that were last changed more than two minutes ago are deleted, and no others; one that is gone already is no failure, and failing to clean up does not keep the states from being read. "
 "The player found to be available is the first that is ready and answers a ping; one that does not answer for 20 seconds loses its state file, the pool is filled and the search begins again. When no player is ready, that is the error. A player is found by its exact ID, and the error says so when there is none. "
 "Waiting for something tries it at least once and again after a pause, until it succeeds or the time is up; then the last error is reported. "
 "Filling the pool starts as many players as are missing from three, counting those that are ready and those that are starting, with the alda-player program on the path; it does nothing when ALDA_DISABLE_SPAWNING is yes, and reports a program that is not found or does not tell its version, states that cannot be read and players that cannot be started.",
 ["histories","schedules","faults"], "for every content of the state directories and every failure on the way",
 "No test covers player processes; the cases that matter are those of processes that die, start and change their files at any moment.",
 ["client/system/process_management.go","client/util/await.go"],
 [("ReadPlayerStates, ReadREPLServerStates, CleanUpStaleStateFiles","client/system/process_management.go"),("FindAvailablePlayer, FindPlayerByID, PingPlayer","client/system/process_management.go"),("FillPlayerPool, AldaPlayerPath","client/system/process_management.go"),("Await","client/util/await.go")],
 ["state files","processes started","results"], [dict(name="state directories in the cache", meaning="what each player process says about itself")],
 technique="path-sensitive symbolic extraction of the effects and results of each function into an automaton, compared with a reference automaton (custom analyser over go/ssa)",
 note=NOTE+"For each function, and each case of what it finds, the language of effects and results is compared exactly with the reference, in both directions.")

CMD="client/cmd/"
prop("C17", "The commands do what they are told, to exactly the players that are meant",
 "play, export, parse, stop, shutdown and ps do what their options say. The source is the file (-f), or else the code (-c), or else what is piped in; with none of them play lets paused players go on, export and parse explain how to give it. A source that cannot be read, parsed or evaluated is an error that is returned, mistakes in the source being shown as such by play and parse, and then nothing is sent to any player. "
 "play sends the whole score once, from and to where asked, to the player at --port, or the one with --player-id, or else one that is found to be available; without a source it sends a message to go on to the player at --port, or with --player-id, or else to every player whose state is active, and only those. It says Playing only when all was sent. "
 "stop and shutdown tell the player at --port, or with --player-id, or else every known player; one that cannot be told does not keep the others from being told. An ID that nobody has is an error and nobody is told. "
 "export refuses formats other than midi; it sends the score, from and to where asked, to an available player, to load only, asks it to write the file at the absolute path of -o (or a temporary file), waits until the file is there, and then says so (or copies it to the output); a file that is not there in time is an error; the player is shut down and the temporary directory removed on every way out. "
 "ps prints one line for every player and every REPL server, with its ID, port, state, expiry and process; parse prints the syntax tree, the events or the score, as asked. "
 "Every option has its name, letter, default and variable; defaults of different commands do not collide. Before any command the log level is set, or refused if it is not 0 to 3, and the pool of players is filled, unless the command is ps, shutdown or doctor. The program waits for its background work, shows the error of the command, if any, and exits with 1 exactly if there is one.",
 ["inputs","histories","faults"], "for all options, sources and states of the players, and every failure on the way",
 "No test runs a command; what they do depends on the processes around and on what fails between two steps.",
 [CMD+"play.go", CMD+"export.go", CMD+"stop.go", CMD+"shutdown.go", CMD+"ps.go", CMD+"parse.go", CMD+"root.go", "client/main.go"],
 [("playCmd","client/cmd/play.go"),("exportCmd","client/cmd/export.go"),("stopCmd, shutdownCmd","client/cmd/stop.go"),("parseCmd, psCmd","client/cmd/parse.go"),("rootCmd, background activities, Execute","client/cmd/root.go"),("main","client/main.go")],
 ["OSC messages sent","what is printed","errors and the exit code"], None,
 technique="path-sensitive symbolic extraction of the effects of each command into an automaton, compared with a reference automaton, by case (custom analyser over go/ssa)",
 note=NOTE+"For each command and each case of options, source and failures, the language of effects and results is compared exactly with the reference, in both directions; the options are read from the code that registers them.")

prop("C18", "Files are written whole, where meant; an update replaces all or nothing",
 "format, import and update change nothing but what is meant, and all of it or nothing. "
 "Everything in the program that writes, creates, renames or removes a file does so below the cache directory, the configuration directory, the directory of the program itself, a new temporary directory, or at a path that the user has named for writing (format -f with -o, import -o, export -o, .alda-nrepl-port); nothing recursive is removed but temporary directories; a rename stays in one place; the only program that is started is the alda-player on the PATH. "
 "alda format and alda import write their file once, with the whole formatted result, after parsing, importing and formatting have succeeded; with an error before that the file is as it was; without -o the result is printed. A negative -w and an unknown input format are refused; import takes -f, else -c, else what is piped in. The options -w and -i are given to the formatter exactly if they are set. "
 "alda update fetches the release asked for, or the latest ones, and installs only after yes (or --yes); an interrupted choice, a closed input or anything that is not an answer is not a yes. Everything for this operating system and architecture is downloaded before anything is installed; an asset that is not described in full, a status other than 200, or an error while copying is an error of the update, which then installs nothing, and what was downloaded is removed in any case. "
 "Installing moves the old program out of the way, and if anything fails after that it is put back; a program that cannot be moved is not overwritten; what is installed can be executed. alda doctor installs the alda-player of this version only, and only after yes. "
 "What an update has left behind is found by its whole name (alda or alda-player, .exe or not, two numbers, .old) in the directory of the program, and directories and other files are left alone.",
 ["inputs","faults"], "for all sources, options, answers of the server and of the user, and every failure on the way",
 "No test runs these commands; what is lost when a step fails shows only with the failure.",
 [CMD+"format.go", CMD+"import.go", CMD+"update.go", CMD+"doctor.go", "client/system/dirs.go", "client/text/interaction.go", "client/parser/format.go"],
 [("formatCmd, importCmd","client/cmd/format.go"),("downloadAssets, installAsset, versionAssets, checkForUpdates","client/cmd/update.go"),("installCorrectAldaPlayerVersion","client/cmd/update.go"),("FindRenamedExecutables, RenamedExecutable","client/system/dirs.go"),("PromptForConfirmation","client/text/interaction.go")],
 ["files written, renamed and removed","what is requested from the server","errors"], None,
 technique="origin analysis of every path given to a call that changes files, and path-sensitive symbolic extraction of the effects of each command into an automaton, compared with a reference automaton, by case; equality of the languages of regular expressions (custom analyser over go/ssa)",
 note=NOTE+"For each path argument of a call that changes files, the places it can begin with are computed interprocedurally and compared with the ones that are allowed; for each command and case the language of effects and results is compared exactly with the reference, in both directions.")

prop("C19", "The network: only who is meant is talked to; telemetry obeys the user",
 "The program talks to nobody but the API of Alda over https (https://api.alda.io), the places that an answer of it names for the assets of a release, players and REPL servers on this machine (127.0.0.1), and the REPL server that the user has named with --host; a REPL server accepts connections on 127.0.0.1 only. "
 "Telemetry is a single request to https://api.alda.io/telemetry before a command is run. It contains the operating system, the architecture, the version and the name of the command, and nothing else. None is sent for alda without a command, when ALDA_DISABLE_TELEMETRY is yes, when the status is disabled, or when it cannot be determined. "
 "Before the first command, or the first help or usage text, the user is told what is collected and how to disable that, before anything is sent, and the status becomes enabled; once the status is enabled or disabled the notice is not shown again; with ALDA_DISABLE_TELEMETRY=yes it is not shown and nothing is written. "
 "alda telemetry --enable and --disable change the status in one step (a new file takes the place of the old one), say so only if that has succeeded, and are refused together; alda telemetry alone says which it is.",
 ["inputs","histories","faults"], "for all commands, all contents of the status file and the environment, and every failure on the way",
 "No test looks at what is sent, and whether something is sent that must not be shows only on the network.",
 [CMD+"telemetry.go", CMD+"root.go", CMD+"update.go", "client/repl/server.go", "client/repl/client.go", "client/transmitter/osc.go", "client/system/tcp.go"],
 [("readTelemetryStatus, writeTelemetryStatus, sendTelemetryRequest","client/cmd/telemetry.go"),("sendTelemetry, rootCmd","client/cmd/root.go"),("RunServer","client/repl/server.go"),("NewClient","client/repl/client.go")],
 ["requests and connections","the status file","what is printed"], [dict(name="telemetry-status",meaning="enabled, disabled, or not there: never asked")],
 technique="origin analysis of every address given to a call that connects or listens, and path-sensitive symbolic extraction of effects into an automaton, compared with a reference automaton, for each state of the environment and the file (custom analyser over go/ssa)",
 note=NOTE+"The addresses of all calls of net, net/http and the OSC library are traced to where they begin; before-command, help, usage and alda telemetry are compared exactly with the reference in six states.")
prop("C20", "The REPL client sends what the user asks, and takes only its own answers",
 "Every line at the prompt is handled once: a line that begins with a colon and has more is a command, quit, exit and bye end the session, an empty line is nothing, and any other is code, sent once to be evaluated and played. The session goes on after an error and an interrupted line, and ends only at quit, the end of the input or an interrupt on an empty line; the connection is then closed. "
 "A request has a new id and the session; its answer is the next message on that connection, within 30 seconds, and only one with the same id. After a request that has failed, its connection is not used anymore, so that a late answer is never taken for that of another request. A session is only started with a server that describes itself as an Alda server that can evaluate and play. "
 "An answer whose status contains error is an error, with all of its problems or, if there are none, the whole answer; any other answer is none; an answer without a status is an error. "
 ":play, :stop, :new, :score, :parts, :instruments, :version, :export, :load and :save send the one operation they stand for, with the arguments they were given; wrong arguments (too many, a repeated or incomplete from or to, an unknown word) are refused and nothing is sent. "
 ":load sends the whole contents of the file, and nothing when it cannot be read; :export and :save write the file named, or for :save without a name the one last named, only with what the server has answered; what the answer does not contain is an error.",
 ["inputs","histories","faults"], "for every line, every answer of the server, and every failure on the way",
 "No test covers the client; a late answer or a failed one only shows in the requests that follow.",
 ["client/repl/client.go"],
 [("sendRequest, connect, Disconnect, ResponseErrors","client/repl/client.go"),("replCommands, handleCommand, RunClient","client/repl/client.go"),("StartSession, SendMessage, NewClient","client/repl/client.go")],
 ["requests sent","files written","what is printed"], [dict(name="Client.serverConn",meaning="the connection, none after a failure"),dict(name="Client.sessionID, inputFilepath, running",meaning="the session, the file last named, whether it goes on")],
 technique="path-sensitive symbolic extraction of the effects of each command and of one turn of the prompt into an automaton, compared with a reference automaton (custom analyser over go/ssa)",
 note=NOTE+"Each command is followed for each shape of its arguments, and the prompt for a line, an interrupt and the end of the input; the language of effects is compared exactly with the reference, in both directions.")
prop("C21", "The same text always gives the same music: nothing depends on chance or history",
 "What Alda makes of a text is determined by the text. Parsing, evaluating, formatting, importing and turning a score into messages and data give the same result each time, in this process and in the next one: "
 "nothing depends on the order in which a map is walked (what is collected from a map or from a group of parts without order is sorted before it is used, or used in a way in which the order does not matter), "
 "on a clock, on chance, on the environment, on addresses or on the process, nothing is kept in variables of the program from one score to the next, and nothing of it runs beside the rest. "
 "This holds for everything that is printed or sent, too, wherever a map is walked in the program: lists of instruments, parts, markers and commands, the names in an answer of the REPL server, and the order of the notes in a key signature.",
 ["inputs","schedules","histories"], "for every text, every order of walking every map, and every history of the process",
 "A test that runs once sees one of the orders; with few elements the wrong one can be rare, and what an earlier score has left behind shows only in the next.",
 ["client/model/part.go","client/model/score.go","client/model/key.go","client/model/voices.go","client/transmitter/osc.go","client/interop/musicxml/importer/importer.go","client/json/json.go","client/repl/client.go"],
 [("Score.Update, AliasesFor, currentParts","client/model/part.go"),("KeySignature.String","client/model/key.go"),("EndVoice","client/model/voices.go"),("ScoreToOSCBundle, ScoreToOSCMessages","client/transmitter/osc.go"),("importMeasure, generateScoreUpdates","client/interop/musicxml/importer/importer.go"),("ToJSON","client/json/json.go")],
 ["events","messages","score data","what is printed"], [dict(name="variables of packages",meaning="what is kept while the program runs; must not change after its start in what makes music of text")],
 technique="dataflow analysis of everything that is walked without order until it is sorted or used in a way that commutes, taint analysis of writes to what package variables refer to, and an effect analysis of the functions between text and messages (custom analyser over go/ssa)",
 note=NOTE+"Every walk over a map in the program is followed, interprocedurally, to where its results are used; every function reachable from parsing, evaluating, importing and transmitting is looked at for effects that ask for or keep something.")
prop("C22", "Formatting a score keeps everything that it says",
 "What alda format and alda import write is the whole score: every part, with its names and alias, every event in it, in order, and for each event all that belongs to it: the letter, all accidentals, every length of a duration with its number in full and its dots, the ties between them, the slur, the barlines, the members of a chord and what stands between them, the name and number of a marker, voice, octave, repetition or ending, the variable's name and events, and the whole of a Lisp form. Read again, it is the same score: the same events in the same order (barlines within a duration may move behind a slur). "
 "Only blanks depend on the width of a line and the indentation: a text (a note with its duration, a Lisp form) is never broken, none is left out or written twice when a line is full, and a variable definition stays on its line until its last event opens a sequence or a voice. "
 "A tree that cannot be written is refused, with an error and without any output. Comments are not kept, by design.",
 ["inputs"], "for every score, every width and every indentation",
 "The tests format a few scores of each kind with one width; what is left out of an unusual combination, or at the end of a full line, does not show in them.",
 ["client/parser/format.go"],
 [("formatTopLevel, formatInnerEvents, formatWithDuration","client/parser/format.go"),("write, flush, line, indent, unindent","client/parser/format.go"),("FormatASTToCode","client/parser/format.go")],
 ["the text written","errors"], [dict(name="formatter.texts",meaning="the texts of the line that is not written yet"),dict(name="formatter.varDef",meaning="whether a definition is being written, and whether it has come to its last event")],
 technique="path-sensitive symbolic extraction of the texts written into an automaton for each type of node, compared with a reference automaton (custom analyser over go/ssa)",
 note=NOTE+"For every type of node, for each list of up to three accidentals, each chord of up to four members, and for every mixture of lengths and barlines, the language of texts written is compared exactly with the reference, in both directions, with each turn of a loop accounted for.")
prop("C23", "The data of a score says everything that the score says",
 "What alda parse prints, and what the REPL server answers to score-data, score-events and score-ast, is complete: the data of each event, attribute, Lisp value, part, note and score contains every field that it has, under its own name and with its own value, and says of which type it is; every list in it has every element, in order. "
 "A duration, a slur and an alias are there exactly when the event has one. Letters, accidentals, roles and types have the same names everywhere. A part is named by the same ID in the list of parts, in the current parts, in the members of an alias and in its notes. "
 "The tree contains every node, with its type, all its children in order, its literal (a letter as a letter) and its place in the text. Where something was written is not part of the data of events.",
 ["inputs"], "for every score and every kind of event in it",
 "Nothing in the tests looks at the data of a score; that a field is missing, or has the value of another, only shows to the program that reads it.",
 ["client/model/note.go","client/model/part.go","client/model/score.go","client/model/attributes.go","client/model/variable.go","client/model/lisp.go","client/parser/ast.go","client/json/declarative.go"],
 [("Note.JSON, NoteEvent.JSON, Rest.JSON","client/model/note.go"),("Part.JSON, PartDeclaration.JSON","client/model/part.go"),("Score.JSON","client/model/score.go"),("VariableDefinition.JSON","client/model/variable.go"),("ASTNode.JSON, ASTNodeType.String","client/parser/ast.go"),("Object, Array","client/json/declarative.go")],
 ["alda parse -o ast, events, data","score-data, score-events, score-ast"], None,
 technique="path-sensitive symbolic extraction of the data made for each type, compared with a reference for the type, and a dataflow analysis of which fields get into it (custom analyser over go/ssa)",
 note=NOTE+"Every method that makes data is compared, for each combination of what can be missing, with a reference that lists its pairs and its loops; a type that is new, or a field that is new and not in its data, is reported.")
prop("C24", "A REPL server can be found from its start to its end",
 "alda repl starts what it is asked for: with --client a client of the server on the port named (without a port that is an error), with --server a server, with neither both, the client then talking to that server; without --port a server takes a port that is free. "
 "A server listens on this machine only. One that cannot listen is an error and writes no files. Any other writes its port to .alda-nrepl-port in the current directory, whatever is there, and its ID, port and process ID to a state file, which is kept fresher than the two minutes after which it would be deleted, so that alda ps lists it for as long as it runs; and it looks after its players, accepts connections and handles requests. "
 "However it ends, with its client, with an error of it, or interrupted or terminated, it removes both files. "
 "alda repl --message sends one message to the server named, in a session of its own, and closes the connection; what is not an object with an op is refused and not sent; the answer is printed, and one with problems is a failure.",
 ["inputs","histories","faults"], "for every combination of options, and every way of ending",
 "No test starts a server; that it leaves something behind or is no longer listed shows only later, to other commands.",
 ["client/repl/server.go","client/cmd/repl.go","client/system/tcp.go","client/repl/client.go"],
 [("RunServer, Close, manageStateFile, writeStateFile, touchStateFile, writePortFile","client/repl/server.go"),("replCmd, sendREPLMessage","client/cmd/repl.go"),("FindOpenPort","client/system/tcp.go"),("SendMessage","client/repl/client.go")],
 [".alda-nrepl-port","the state file","alda ps","exit status"], [dict(name="state/repl-servers/ID.json",meaning="a server that runs, as other processes see it")],
 technique="path-sensitive symbolic extraction of the effects of starting, running and ending a server for each combination of options, compared with a reference automaton (custom analyser over go/ssa)",
 note=NOTE+"Each combination of --client, --server, --port and --message is followed on its own, including the goroutines that are started.")
