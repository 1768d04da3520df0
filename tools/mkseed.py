"""mkseed.py ID PROPERTY FILE 'old' 'new' 'needs' 'what' < demo.c : writes seeded/ID (demo.c is compiled against /repo and libvl)"""
import sys,os,subprocess,json
sid,prop,f,old,new,needs,what=sys.argv[1:8]; nth=int(sys.argv[8]) if len(sys.argv)>8 else 0
R=os.environ.get("WR","/repo"); p=R+"/"+f; s=open(p,encoding='latin-1').read()
assert s.count(old)>nth,("not found",s.count(old))
i=-1
for _ in range(nth+1): i=s.index(old,i+1)
t=s[:i]+new+s[i+len(old):]
d="/verif/seeded/"+sid; os.makedirs(d,exist_ok=True)
open(p,'w',encoding='latin-1').write(t)
try: diff=subprocess.run(["git","-C",R,"diff"],capture_output=True).stdout
finally: subprocess.run(["git","-C",R,"checkout","--","."],check=True)
open(d+"/patch.diff","wb").write(diff)
open(d+"/demo.c","w").write(sys.stdin.read())
open(d+"/demo.sh","w").write('''#!/bin/bash
# run with cwd /repo after the build: exit 0 when the property holds on the demonstrated input
here="$(cd "$(dirname "$0")" && pwd)"; root="$PWD"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
gcc -std=gnu99 -O1 -w -DNDEBUG -DVL_DISABLE_OPENMP -I"$root" -I"$root/toolbox" "$here/demo.c" -o "$tmp/demo" -L"$root/bin/glnxa64" -lvl -lm -lpthread || exit 2
cd "$tmp" && LD_LIBRARY_PATH="$root/bin/glnxa64" timeout 120 ./demo
''')
os.chmod(d+"/demo.sh",0o755)
json.dump({"property":prop,"needs":needs,"what_it_breaks":what},open(d+"/meta.json","w"),indent=1)
print(diff.decode('latin-1'))
