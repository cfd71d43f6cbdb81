#!/usr/bin/env python3
"""mkseed.py FILE.py: writes planted bugs under /verif/seeded from a Python
file defining BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo)]."""
import json, os, subprocess, sys, shutil, tempfile, runpy
PRE = '''package main

import (
	"fmt"
	"os"
	"strings"
%s
	"gopkg.in/irc.v4"
)

var _ = strings.Join
var _ irc.Message

func fail(format string, args ...interface{}) {
	fmt.Printf("DEMO FAILED: "+format+"\\n", args...)
	os.RemoveAll(scratchRoot)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		fail("%%v", err)
	}
}

// lines returns what a peer received, one string per message.
func lines(p *Peer) []string {
	var l []string
	for _, m := range p.Take() {
		m.Tags = nil
		l = append(l, m.String())
	}
	return l
}

func has(l []string, sub string) bool { return count(l, sub) > 0 }

func count(l []string, sub string) int {
	n := 0
	for _, s := range l {
		if strings.Contains(s, sub) {
			n++
		}
	}
	return n
}

func main() {
	dir, err := os.MkdirTemp("", "demo")
	must(err)
	scratchRoot = dir
	demo()
	os.RemoveAll(dir)
	fmt.Println("demo ok")
}

'''
bugs = runpy.run_path(sys.argv[1])["BUGS"]
only = set(sys.argv[2:])
for b in bugs:
    if only and b["id"] not in only: continue
    d = "/verif/seeded/" + b["id"]
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r"])
    try:
        for f, old, new in b["edits"]:
            p = w + "/r/" + f
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        subprocess.call(["gofmt", "-l"] + [w + "/r/" + f for f, _, _ in b["edits"]])
        open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True))
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
        shutil.rmtree(w)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    if b.get("demo"):
        imps = "".join('\t"%s"\n' % i for i in b.get("imports", []))
        open(d + "/demo.go", "w").write(PRE % imps + b["demo"].strip() + "\n")
        subprocess.call(["gofmt", "-w", d + "/demo.go"])
    print("wrote", b["id"])
