#!/usr/bin/env python3
"""mkseed(id, prop, [(file, old, new)...], needs, breaks, demo C code): writes /verif/seeded/<id>."""
import os, json, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <glib.h>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "broken: %s (line %d)\\n", #c, __LINE__); return 1; } } while (0)
'''
DEMO = '''#!/bin/sh
# Builds demo.c against the library just built and runs it: 0 = behaves as stated, nonzero = broken.
here=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
gcc -w -g %s-D_GNU_SOURCE -I include -I lib $(pkg-config --cflags glib-2.0 json-c) "$here/demo.c" -o "$w/demo" %s $(pkg-config --libs glib-2.0 json-c) -Wl,--copy-dt-needed-entries -Wl,-rpath,"$PWD/lib/.libs" || exit 3
cd "$w" && timeout 60 %s./demo
'''
def mkseed(id, prop, edits, needs, breaks, code, static=False, valgrind=False):
    d = os.path.join(V, 'seeded', id); os.makedirs(d, exist_ok=True); t = tempfile.mkdtemp(prefix='mk-', dir='/tmp')
    try:
        diff = b''
        for f in sorted({e[0] for e in edits}):
            os.makedirs(os.path.dirname(os.path.join(t, 'a', f)), exist_ok=True); os.makedirs(os.path.dirname(os.path.join(t, 'b', f)), exist_ok=True)
            s = subprocess.run(['git', '-C', '/repo', 'show', 'HEAD:' + f], stdout=subprocess.PIPE, check=True).stdout.decode(); n = s
            for g, o, w in edits:
                if g == f:
                    assert n.count(o) == 1, (id, f, n.count(o), o); n = n.replace(o, w)
            open(os.path.join(t, 'a', f), 'w').write(s); open(os.path.join(t, 'b', f), 'w').write(n)
            diff += subprocess.run(['git', 'diff', '--no-index', '--src-prefix=', '--dst-prefix=', 'a/' + f, 'b/' + f], cwd=t, stdout=subprocess.PIPE).stdout
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    finally: shutil.rmtree(t, True)
    open(os.path.join(d, 'demo.c'), 'w').write(HEAD + code)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % ('', 'lib/.libs/libsatyr_conv.a -ldw -lelf -lrpm -lrpmio -lstdc++' if static else '-L lib/.libs -lsatyr', 'valgrind -q --error-exitcode=9 ' if valgrind else '')); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
