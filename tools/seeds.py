#!/usr/bin/env python3
"""Regenerate /verif/seeded/* from the table in seeds_data.py.
A seed: (id, property, needs, what, edits[(file,old,new)], pkg, demo)
demo is Go test source (package clause and imports are added), placed in
client/<pkg> through an overlay; the test is TestDemo. Helpers available in
package zzdemo: run(t, src) *model.Score, offs(score) []float64, near(a,b)."""
import os, sys, json
sys.path.insert(0, os.path.dirname(__file__))
from mk import mk
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HELP = '''
func try(src string) (*model.Score, error) {
	ast, err := parser.Parse("demo", src)
	if err != nil { return nil, err }
	ups, err := ast.Updates()
	if err != nil { return nil, err }
	s := model.NewScore()
	return s, s.Update(ups...)
}
func run(t *testing.T, src string) *model.Score {
	s, err := try(src)
	if err != nil { t.Fatal(err) }
	return s
}
func notes(s *model.Score) []model.NoteEvent {
	var r []model.NoteEvent
	for _, e := range s.Events { r = append(r, e.(model.NoteEvent)) }
	return r
}
func near(a, b float64) bool { return a-b < 0.01 && b-a < 0.01 }
func eq(t *testing.T, what string, got, want interface{}) {
	t.Helper()
	if !reflect.DeepEqual(got, want) { t.Fatalf("%s: got %v, want %v", what, got, want) }
}
func offs(s *model.Score, part string) []float64 {
	r := []float64{}
	for _, n := range notes(s) { if part == "" || n.Part.Name == part { r = append(r, math.Round(n.Offset)) } }
	return r
}
func midi(s *model.Score, part string) []int32 {
	r := []int32{}
	for _, n := range notes(s) { if part == "" || n.Part.Name == part { r = append(r, n.MidiNote) } }
	return r
}
func durs(s *model.Score, part string) []float64 {
	r := []float64{}
	for _, n := range notes(s) { if part == "" || n.Part.Name == part { r = append(r, math.Round(n.Duration)) } }
	return r
}
type F = []float64
type M = []int32
'''
SH = '''#!/bin/bash
# Runs demo_test.go inside the client module (through an overlay: /repo is not written to).
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\": {\\"$PWD/client/%s/zz_demo_test.go\\": \\"$d/demo_test.go\\"}}" > "$t/o.json"
(cd client && go test -vet=off -c -o "$t/demo" -overlay "$t/o.json" ./%s) || exit 2
mkdir "$t/home" && cd "$t/home" && HOME="$t/home" "$t/demo" -test.run '^TestDemo$' -test.timeout 120s
'''
S = []
def seed(id, prop, needs, what, edits, demo, pkg='zzdemo', imports=(), helpers=None):
    S.append((id, prop, needs, what, edits, demo, pkg, imports, helpers))
exec(open(os.path.join(here, 'tools', 'seeds_data.py')).read())
only = sys.argv[1:]
for id, prop, needs, what, edits, demo, pkg, imports, helpers in S:
    if only and id not in only and prop not in only: continue
    d = os.path.join(here, 'seeded', id)
    mk(os.path.join(d, 'patch.diff'), edits)
    imps = ['testing'] + list(imports)
    body = demo
    if pkg == 'zzdemo' and helpers is not False:
        imps += ['reflect', 'math', 'alda.io/client/parser', 'alda.io/client/model', '_ alda.io/client/testing']
        body = HELP + demo
    imp = '\n'.join(('\t_ "%s"' % i[2:]) if i.startswith('_ ') else '\t%s "%s"' % tuple(i.split(' ')) if ' ' in i else '\t"%s"' % i for i in sorted(set(imps)))
    open(os.path.join(d, 'demo_test.go'), 'w').write('package %s\n\nimport (\n%s\n)\n%s' % (pkg.split('/')[-1], imp, body))
    open(os.path.join(d, 'demo.sh'), 'w').write(SH % (pkg, pkg))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
print(len(S), 'seeds')
