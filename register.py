import re,glob,os
d=os.path.join(os.path.dirname(os.path.abspath(__file__)),'harness/src')
m=open(d+'/main.rs').read()
mods=[];ents=[]
for f in sorted(glob.glob(d+'/h[0-9][0-9]*.rs')):
    n=os.path.basename(f)[:-3]
    mods.append('mod %s;'%n)
    ents+=['    %s::%s,'%(n,x) for x in re.findall(r'pub extern "C" fn (h\d\d_\w+)\(',open(f).read())]
m=re.sub(r'(mod svc;\n)(mod h\d\d\w*;\n)*',lambda _:'mod svc;\n'+'\n'.join(mods)+'\n',m)
m=re.sub(r'table! \{\n(.*?)\n\}',lambda _:'table! {\n'+'\n'.join(ents)+'\n}',m,flags=re.S)
open(d+'/main.rs','w').write(m)
