import sys,os,shutil,subprocess,json,tempfile
def seed(id,prop,needs,breaks,mod,pkg,test,edits,tests=None):
    if len(sys.argv)>1 and id not in sys.argv[1:]: return
    d='/verif/seeded/'+id
    os.makedirs(d,exist_ok=True)
    for f in os.listdir(d):
        if f.endswith('_test.go'): os.unlink(d+'/'+f)
    shutil.copy('/verif/tools/demo.sh',d+'/demo.sh')
    open(d+'/pkg.txt','w').write(f'{mod} {pkg}\n')
    open(d+'/verif_demo_test.go','w').write(test.lstrip())
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    done=[]
    try:
        for f,old,new in edits:
            p='/repo/src/'+f
            s=open(p).read()
            assert s.count(old)==1,(f,old,s.count(old))
            open(p,'w').write(s.replace(old,new)); done.append(p)
        out=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
        assert out
        open(d+'/patch.diff','w').write(out)
    finally:
        subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
    subprocess.run(['/verif/tools/seed',id])
