import sys,re,subprocess,os,shutil
# usage: apply.py set.txt... : reset the copy and apply all the blocks (all must match once)
R='/tmp/rf/repo'
subprocess.check_call(['git','-C',R,'checkout','-q','--','.'])
only=None
n=0
for f in sys.argv[1:]:
    if f.startswith('-o'): only=f[2:]; continue
    t=open(f).read()
    for m in re.finditer(r'^@ (\S+) \| (\S+)\n<<<\n(.*?)\n===\n(.*?)\n?>>>$',t,re.M|re.S):
        name,file,old,new=m.groups()
        if only and not re.search(only,name): continue
        p=f'{R}/src/{file}'
        s=open(p).read()
        c=s.count(old)
        allof=name.endswith('*')
        if c==0 or (c>1 and not allof):
            print('??',name,c); continue
        s=s.replace(old,new)
        open(p,'w').write(s); n+=1
print(n,'applied')
