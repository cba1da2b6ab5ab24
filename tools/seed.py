#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy and writes them to seeded/<id>/.
usage: seed.py DEFS.py   (DEFS defines BUGS, a list of dicts:
 id, property, edits [(file, old, new)], needs, breaks, demo (Go statements))"""
import json, os, shutil, subprocess, sys, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
ENV = '. /opt/vp/env.sh; '
PRE = '''package main

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strings"
	"sync"

	d "github.com/kodaimura/ddlparse"
)

var _ = json.Marshal
var _ = reflect.DeepEqual
var _ = strings.Repeat
var _ sync.Mutex

func must(ok bool, what string, got ...interface{}) {
	if !ok {
		fmt.Println("FAILED:", what, got)
		os.Exit(1)
	}
}

func parse(x string, r d.Rdbms) []d.Table {
	t, err := d.Parse(x, r)
	must(err == nil, "accepted: "+x, err)
	return t
}

func rejected(x string, r d.Rdbms) d.ValidateError {
	t, err := d.Parse(x, r)
	must(err != nil, "rejected: "+x, t)
	v, ok := err.(d.ValidateError)
	must(ok, "typed error")
	return v
}

func main() {
	_ = parse
	_ = rejected
'''
DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t="$(mktemp -d)" || exit 3
trap 'rm -rf "$t"' EXIT
cp "$here/main.go.txt" "$t/main.go"
printf 'module demo\\n\\ngo 1.22\\n\\nrequire github.com/kodaimura/ddlparse v0.0.0\\nreplace github.com/kodaimura/ddlparse => %s\\n' "$repo" > "$t/go.mod"
cd "$t" || exit 3
go build RACE-o demo . || exit 3
./demo
'''
def sh(c, cwd):
    return subprocess.run(['bash', '-c', ENV + c], cwd=cwd, capture_output=True, text=True)
for b in ns['BUGS']:
    if only and b['id'] not in only: continue
    t = tempfile.mkdtemp(prefix='seed')
    w = os.path.join(t, 'repo')
    subprocess.check_call(['cp', '-a', '/repo', w])
    ok = True
    out = os.path.join(t, 'out'); os.mkdir(out)
    open(out + '/main.go.txt', 'w').write(PRE + b['demo'] + '\n}\n')
    open(out + '/demo.sh', 'w').write(DEMO.replace('RACE', '-race ' if b.get('race') else '')); os.chmod(out + '/demo.sh', 0o755)
    r0 = sh(f'bash {out}/demo.sh', w)
    if r0.returncode != 0: print(b['id'], 'DEMO FAILS ON CLEAN', r0.stdout, r0.stderr[-1500:]); ok = False
    for f, old, new in b['edits']:
        p = os.path.join(w, f); s = open(p).read()
        n = s.count(old)
        if n != 1: print(b['id'], 'EDIT matches', n, repr(old)); ok = False; continue
        open(p, 'w').write(s.replace(old, new))
    if ok:
        r = sh('go build ./... && go test ./... 2>&1', w)
        if r.returncode != 0: print(b["id"], "TESTS FAIL", "".join(x for x in r.stdout.splitlines(True) if "FAIL" in x or "_test.go" in x)[:400], r.stderr[-300:]); ok = False
        r1 = sh(f'bash {out}/demo.sh', w)
        if r1.returncode in (0, 3): print(b['id'], 'DEMO PASSES/BROKEN ON BUG', r1.returncode, r1.stderr[-800:]); ok = False
    if ok:
        diff = subprocess.check_output(['git', 'diff'], cwd=w, text=True)
        open(out + '/patch.diff', 'w').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        dst = os.path.join(root, 'seeded', b['id'])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        print(b['id'], 'ok:', r1.stdout.strip()[:150])
    shutil.rmtree(t)
