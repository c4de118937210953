import subprocess,sys
def sub(f, *pairs):
    p='/repo/sources/'+f
    s=open(p).read()
    for a,b in pairs:
        assert s.count(a)>=1, (f,a)
        s=s.replace(a,b)
    open(p,'w').write(s)
def commit(msg, prop):
    subprocess.check_call(['git','-C','/repo','commit','-qam','fix: '+msg])
    h=subprocess.check_output(['git','-C','/repo','log','-1','--format=%h'],text=True).strip()
    open('/verif/tools/fixes.txt','a').write('%s %s\n'%(h,prop))
    print(h,msg)
