"""mk(path, edits): write a git diff against /repo HEAD; edits = [(file, old, new)]."""
import os, subprocess, difflib
def mk(path, edits):
    cur={}
    for f,old,new in edits:
        p=os.path.join('/repo',f)
        if f not in cur: cur[f]=subprocess.run(['git','-C','/repo','show','HEAD:'+f],capture_output=True,text=True).stdout
        n=cur[f].count(old)
        assert n==1, (path,f,n,old[:80])
        cur[f]=cur[f].replace(old,new)
    out=''
    for f in cur:
        a=subprocess.run(['git','-C','/repo','show','HEAD:'+f],capture_output=True,text=True).stdout
        out+=f'diff --git a/{f} b/{f}\n'
        out+=''.join(difflib.unified_diff(a.splitlines(1),cur[f].splitlines(1),'a/'+f,'b/'+f))
    os.makedirs(os.path.dirname(path),exist_ok=True)
    open(path,'w').write(out)
