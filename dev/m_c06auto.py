import re,glob,random,os
random.seed(int(os.environ.get("MSEED","1")))
CASES=[]
for f in sorted(glob.glob("/repo/lib/*.c")+glob.glob("/repo/lib/antlr/*.cpp")):
    rel=f[6:]
    s=open(f).read()
    for m in re.finditer(r"\btry_\(",s):
        # unique context
        a=s.rfind("\n",0,m.start()-120 if m.start()>120 else 0)+1
        b=s.find("\n",m.end()+40)
        old=s[a:b]
        if s.count(old)!=1: continue
        new=s[a:m.start()]+"("+s[m.end():b]
        ln=s.count("\n",0,m.start())+1
        CASES.append(("%s:%d"%(os.path.basename(rel),ln),"C06","bad",[(rel,old,new)]))
    for m in re.finditer(r"(== FQL_FAIL\) \{\n\t+)(return FQL_FAIL;|goto [a-z_]+;|break;)",s):
        a=s.rfind("\n",0,m.start()-120 if m.start()>120 else 0)+1
        old=s[a:m.end()]
        if s.count(old)!=1: continue
        new=s[a:m.start(2)]+";"
        ln=s.count("\n",0,m.start())+1
        CASES.append(("fail-%s:%d"%(os.path.basename(rel),ln),"C06","bad",[(rel,old,new)]))
print(len(CASES))
CASES=random.sample(CASES,int(os.environ.get("MN","70")))
