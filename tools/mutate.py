"""mut.py PROP FILE 'old' 'new' [nth]: run the check on a scratch copy with one textual change"""
import sys,os,shutil,subprocess,tempfile,time
prop,f,old,new=sys.argv[1:5]; nth=int(sys.argv[5]) if len(sys.argv)>5 else 0
d=tempfile.mkdtemp(prefix="mr"); 
for x in ("vl","toolbox"): shutil.copytree(os.environ.get("WR","/repo")+"/"+x,d+"/"+x)
p=d+"/"+f; s=open(p,encoding='latin-1').read()
assert s.count(old)>nth,("not found",s.count(old))
i=-1
for _ in range(nth+1): i=s.index(old,i+1)
s=s[:i]+new+s[i+len(old):]; open(p,'w',encoding='latin-1').write(s)
t=time.time()
r=subprocess.run(["python3","/verif/check.py",prop],capture_output=True,text=True,env=dict(os.environ,VERIF_REPO=d))
L=r.stdout.split("\n")
print("== %s: %r -> %r : rc=%d %.0fs"%(prop,old[:60],new[:60],r.returncode,time.time()-t))
for l in L:
    if l.startswith(("VIOLATION","UNDECIDED")) : print("  ",l[:200])
fo=[l for l in L if l.startswith("FAILED-OBL")]; print("   failed obligations:",len(fo),fo[0][:150] if fo else "")
k=[i for i,l in enumerate(L) if l.startswith("FAIL ")]
if k: print("   ","\n    ".join(x[:300] for x in L[k[0]:k[0]+2]))
if r.returncode not in(0,1) : print(r.stdout[-800:],r.stderr[-800:])
shutil.rmtree(d)
