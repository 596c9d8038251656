#!/usr/bin/env python3
"""(maintainer) mkcand.py ID PROPERTY FILE <<< python dict with old,new,needs,breaks,demo  -> /tmp/cand/ID"""
import sys, os, json, subprocess, tempfile, shutil
TPL = '''#!/bin/bash
# compiles demo.cpp against the headers of the repository in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
g++ -std=c++17 -O1 -w -I"$PWD/include" -I"$PWD/lib/include" -I"$PWD/include/higra" "$here/demo.cpp" -o "$w/demo" || exit 3
timeout 120 "$w/demo"
'''
HEAD = '''#include "higra/graph.hpp"
%s
#include <cstdio>
#include <vector>
using namespace hg;
#define CHECK(c) do { if (!(c)) { std::printf("failed: %%s\\n", #c); return 1; } } while (0)
int main() {
%s
  return 0;
}
'''
def make(id, prop, file, old, new, needs, breaks, demo, inc='', out='/tmp/cand', count=1):
    p = '/repo/' + file; s = open(p).read()
    edits = old if isinstance(old, list) else [(old, new)]
    t = s
    for o, n in edits:
        assert t.count(o) == count, (id, t.count(o), o)
        t = t.replace(o, n)
    d = '%s/%s' % (out, id); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    os.makedirs(os.path.join(w, 'a', os.path.dirname(file))); os.makedirs(os.path.join(w, 'b', os.path.dirname(file)))
    open('%s/a/%s' % (w, file), 'w').write(s); open('%s/b/%s' % (w, file), 'w').write(t)
    r = subprocess.run(['diff', '-u', 'a/' + file, 'b/' + file], cwd=w, capture_output=True, text=True).stdout
    r = '\n'.join(l.split('\t')[0] if l.startswith(('--- ', '+++ ')) else l for l in r.split('\n'))
    open(d + '/patch.diff', 'w').write(r); shutil.rmtree(w)
    open(d + '/demo.sh', 'w').write(TPL); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cpp', 'w').write(HEAD % (inc, demo))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
