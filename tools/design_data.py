import re
FILES = dict(C01='rules_note.go', C02='rules_note.go', C03='rules_attr.go', C04='rules_attr.go', C05='rules_lisp.go', C06='rules_pitch.go', C07='rules_midi.go',
             C08='rules_part.go', C09='rules_voice.go', C10='rules_repeat.go', C11='rules_osc.go', C12='rules_scanner.go', C13='rules_parser.go', C14='rules_ast.go', C15='rules_repl.go', C16='rules_players.go', C17='rules_commands.go',
             C18='rules_files.go', C19='rules_net.go', C20='rules_client.go', C21='rules_same.go', C22='rules_format.go', C23='rules_json.go', C24='rules_server.go')

def rules_of(ev):
    t = ev.get('coverage', {}).get('explanation', '')
    i = t.find('Rules: ')
    out = []
    for x in (t[i + 7:].split(' || ') if i >= 0 else []):
        m = re.match(r'(.+?) \(\d+ instances\): (.*)', x, re.S)
        if m and m.group(1) != 'analysis':
            out.append((m.group(1), m.group(2)))
    return out

LIMITS = dict(
 C01='Bounds: none on scores; arithmetic is over the reals. The values of the helpers it meets on the way (MIDI numbers, channels, milliseconds) are the subject of C06, C07 and C02.',
 C02='Bounds: none; rounding of float64 is not considered. That `DurationMs` agrees with playing is decided case by case (per kind of update).',
 C03='Every update with an effect on a part property is covered through the frame condition: a write to a property that no attribute names is reported.',
 C04='The order of concurrent changes at one offset is that in which they were written.',
 C05='The table of documented attributes is in `builtins.go`; the documentation of the repository is its oracle.',
 C06='The circle of fifths and the scale types are derived from theory in the checker, not copied from the code.',
 C07='Whether two notes overlap is decided on offsets as computed, without rounding.',
 C08='The General MIDI names come from the standard; aliases from the documentation.',
 C09='Which voice carries on when two end at the same time is stated as it is in the code, for lack of documentation.',
 C10='Termination of recursive variables follows from replacing references at the time of definition.',
 C11='The Kotlin side is read with a small parser that knows the destructuring idiom of `Parser.kt`; if that idiom changes, the check says it cannot read it (a violation). What the player does with the messages is not covered.',
 C12='Characters are handled as classes, derived from the comparisons the code makes; a predicate on characters the analysis does not know is an opaque split and reported.',
 C13='The grammar is compared rule by rule: each recursive function of the parser is a rule, with non-recursive helpers inlined. Depth of nesting is unbounded.',
 C14='The shapes of trees are those that C13 establishes; refusal of other trees is not judged.',
 C15='The calls into the other packages (parsing, applying updates, sending) are events, decided by C10 to C14. Races between `managePlayers` and the requests on `Server.player` are left out: that field is treated as changing at any time, so every order is considered, but a torn read of the struct is not. Answers are compared up to the fields they have and where their values come from.',
 C16='State files are compared by name and content as the functions of the standard library report them. How long a pause is, and what the player writes (Kotlin), is not judged.',
 C17='The wording of messages is not judged, nor what cobra does with the options. An export to a file that exists before is taken to be done at once.',
 C18='Only the Linux build is analysed. The names of assets are those that the server gives; whether they contain ".." is not judged. The user\'s file is written with os.WriteFile, so a crash in the middle of that call can leave half of it. Two buffers of the same type are not told apart. The wording of messages is not judged.',
 C19='A status file that cannot be read or understood makes the program tell the user again and write "enabled", which is what the code documents; a later reading in the same run is not told apart from the first. What libraries do on the network by themselves is not followed. What the place of an asset is, is up to the API.',
 C20='How a line is edited and split into words is up to the libraries (readline, shlex). What :parts and :score info print is not followed line by line. An error of reading a line other than an interrupt and the end of the input is left open (the libraries give no other). Writing a request has no time limit of its own.',
 C21='The identifiers of parts in score data are addresses, by design, and differ from run to run. The keys of offsets in score data have six digits; of two entries with the same key the later one is kept. Attribute names and the names of lisp functions are taken to be distinct where they are registered (`defattribute`, `defn`), and so are the parts of an import with regard to instruments and alias. Which of the goroutines of the REPL server or of the commands comes first is not judged here (see C15 and C17), nor is what is logged.',
 C22='What is decided is which texts are written for which tree. That reading them again gives the tree rests on what C04, C05 and C13 say about the scanner and the parser; the two are not composed. Accidentals are followed up to three, members of a chord up to four. Empty lines between parts are not judged. A string of a Lisp form is written as it was read, with its escapes.',
 C23='The library that holds the data (gabs) is trusted to print what it is given. What a number looks like in JSON is left to it, too. ast-human, and the forms that only serve to find mistakes, are not judged. Pairs of an object have no order.',
 C24='A process that is killed leaves its files; the state file is then deleted by whatever next looks for players (C16). What a goroutine does is followed as if it came before what is done after it was started. That two servers never choose the same ID is not judged.',
)
CAUGHT = {}
NA = '''
The following guarantees were considered and left out, because no static argument
in reach bounds what they quantify over:

* *What is heard*: latency, timing jitter and the fidelity of playback are
  properties of the JVM's MIDI sequencer and the operating system at run time.
* *The contents of exported MIDI files*: written by the Java sound library from
  what the player holds; only the messages that lead there are covered (C11, C15).
* *MusicXML import keeps the meaning of a score*: this is the equality of two
  readings, with a specification (MusicXML) far larger than the code.
* *Resources*: the memory and time evaluation takes are not bounded; `*1000000`
  is legal.
'''
FALSE = '''
* C07 first demanded that a channel is never shared by two parts at all; the code
  shares channels of parts that do not sound together, by design. Restated.
* C11 demanded a tempo message at offset 0 always; scores without tempo changes
  need none beyond the default. Restated. `ScoreToOSCBundle` rewritten to keep
  the longest end with an `if` instead of `math.Max` was reported; both forms are
  recognised now.
* C13 took the lookahead of optional rules for consumed tokens (backtracking);
  the token-flow analysis models saved positions since.
* C15 took the order in which independent conditions are asked for a change; they
  are assumed, case by case, instead. It took putting a field back to the value
  it has for an effect; such writes are none.
* In each property, the refactorings in `refactors/` found places where a check
  judged spelling; these were corrected in the analyses (never by exempting the
  place). All of them are quiet now.
'''
OTHER = '''Known and not covered by a check: the tempo a voice sets is lost when another
voice of its group ends later (left as it is: it is unclear what is intended);
`load` in the REPL starts afresh before it parses, so that a text with an error
loses the session (as documented in the code).
'''
