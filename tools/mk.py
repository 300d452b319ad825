# mk.py ID PROPERTY 'needs' 'breaks' ; demo.cpp from stdin; patch from git diff in /tmp/w/repo
import sys,os,json,subprocess,stat
ID,prop,needs,breaks=sys.argv[1:5]
flags=sys.argv[5] if len(sys.argv)>5 else ""
d=f"/verif/seeded/{ID}";os.makedirs(d,exist_ok=True)
diff=subprocess.run(["git","-C","/tmp/w/repo","diff"],stdout=subprocess.PIPE).stdout
assert diff, "empty diff"
open(d+"/patch.diff","wb").write(diff)
open(d+"/demo.cpp","w").write(sys.stdin.read())
open(d+"/demo.sh","w").write(f'''#!/bin/bash
# Builds demo.cpp against the library in ./_build and runs it in a scratch directory.
set -e
HERE=$(cd "$(dirname "$0")" && pwd); REPO=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -O1 -w {flags} -I"$REPO" "$HERE/demo.cpp" "$REPO/_build/bin/libfuzzylite-static.a" -o "$T/demo" -pthread
cd "$T" && timeout 200 ./demo
''')
json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
subprocess.run(["git","-C","/tmp/w/repo","checkout","-q","--","."])
