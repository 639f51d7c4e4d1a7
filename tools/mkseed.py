#!/usr/bin/env python3
"""mkseed.py FILE...: build planted bugs from definition files.
A definition file calls seed(id, prop, needs, breaks, edits, demo, libs). The patch is the diff of the edits on /repo's HEAD."""
import json, os, re, subprocess, sys, tempfile, textwrap
SEEDED = '/verif/seeded'
PRE = open('/verif/tools/seed_demo_head.h').read()
SH = '''#!/bin/bash
# Run in /repo after the build: exit 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
R=$PWD
%(extra)s
%(pre)s
g++ -std=c++17 -O1 -w -I"$here" -I"$R/rct_common/include" -I"$R/rct_optimizations/include" -I"$R/rct_image_tools/include" -I"$R/rct_ros_tools/include" \\
  -I/usr/include/eigen3 -I/usr/include/opencv4 -I"$tmp/stub" "$here/demo.cpp" %(srcs)s -o "$tmp/demo" -L"$R/_build" -Wl,-rpath,"$R/_build" %(libs)s || exit 3
cd "$tmp" && ./demo > out.txt 2>&1
rc=$?
tail -5 out.txt
exit $rc
'''
LIBS = {
 'opt': '-lrct_optimizations -lceres -lglog -lyaml-cpp',
 'img': '-lrct_image_tools -lrct_optimizations -lceres -lglog -lyaml-cpp -lopencv_core -lopencv_imgproc -lopencv_imgcodecs -lopencv_features2d -lopencv_aruco -lopencv_objdetect -lopencv_calib3d',
}
def seed(id, prop, needs, breaks, edits, demo, libs='opt', srcs='', extra='', ros=False, pre=''):
    if ros: extra += '\nmkdir -p "$tmp/stub" && tar xzf "$here/ros_stub.tgz" -C "$tmp/stub" || exit 3'
    if ONLY and id not in ONLY: return
    wt = tempfile.mkdtemp(prefix='mkseed')
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', wt + '/w', 'HEAD'])
    try:
        for f, old, new in edits:
            p = f'{wt}/w/{f}'; s = open(p).read()
            n = s.count(old)
            if n < 1: raise SystemExit(f'{id}: text not in {f}: {old[:60]!r}')
            if n > 1: print(f'{id}: {n} places in {f}')
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', wt + '/w', 'diff'], text=True)
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', wt + '/w']); os.rmdir(wt)
    d = f'{SEEDED}/{id}'; os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write('#include "demo_head.h"\n' + textwrap.dedent(demo).lstrip())
    open(d + '/demo_head.h', 'w').write(PRE)
    if ros: subprocess.check_call(['tar', 'czf', d + '/ros_stub.tgz', '-C', '/verif/harness/ros_stub', '.'])
    open(d + '/demo.sh', 'w').write(SH % dict(pre=pre, libs=LIBS.get(libs, libs), srcs=srcs, extra=extra)); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print('made', id)
ONLY = set()
if __name__ == '__main__':
    args = sys.argv[1:]
    if '--only' in args:
        i = args.index('--only'); ONLY = set(args[i + 1:]); args = args[:i]
    for a in args: exec(compile(open(a).read(), a, 'exec'))
