# usage: mkseed.py id property file  (reads pairs OLD/NEW from stdin separated by lines '====' and '----'), optional multiple files "@@ file"
import sys,subprocess,os,json,difflib
id,prop,needs,breaks=sys.argv[1:5]
d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
txt=sys.stdin.read(); out=''
for part in txt.split('@@ ')[1:]:
    fn,rest=part.split('\n',1); p='/repo/'+fn.strip(); orig=cur=open(p).read()
    for ch in rest.split('\n====\n'):
        if '\n----\n' not in ch: continue
        o,n=ch.split('\n----\n'); o=o.strip('\n'); n=n.strip('\n')
        assert cur.count(o)==1,(id,cur.count(o),o); cur=cur.replace(o,n)
    out+=''.join(difflib.unified_diff(orig.splitlines(1),cur.splitlines(1),'a/'+fn.strip(),'b/'+fn.strip()))
open(d+'/patch.diff','w').write(out); json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
if not os.path.exists(d+'/demo.sh'): open(d+'/demo.sh','w').write(open('/verif/tools/demo_template.sh').read())
r=subprocess.run(['git','-C','/repo','apply','--check',d+'/patch.diff']); print(id,'ok' if r.returncode==0 else 'BAD')
