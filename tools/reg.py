import re,glob,os
d='/verif/harness/src/'
mods=sorted(f[:-3] for f in os.listdir(d) if re.match(r'[pt]_\w+\.rs$',f))
reg=[]
for m in mods:
    for f in re.findall(r'^pub fn (h_\w+)\(\)',open(d+m+'.rs').read(),re.M): reg.append('    %s::%s,'%(m,f))
s=open(d+'lib.rs').read()
s=re.sub(r'(pub mod [pt]_\w+;\n)+','',s)
s=s.replace('pub mod sym;\n','pub mod sym;\n'+''.join('pub mod %s;\n'%m for m in mods))
s=re.sub(r'registry! \{\n.*?\n\}','registry! {\n'+'\n'.join(reg)+'\n}',s,flags=re.S)
open(d+'lib.rs','w').write(s)
