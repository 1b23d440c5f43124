import glob, importlib.util, os
CASES=[]
for f in sorted(glob.glob("/verif/dev/m_*.py")):
    if "c30" in f: continue
    g={}
    try: exec(open(f).read(), g)
    except Exception as e: continue
    for c in g.get("CASES",[]):
        if c[2]=="ok" and any(os.path.basename(e[0]) in ("operation.c","reader.c","writer.c","query.c","fqldelete.c","fqlupdate.c","fqlset.c","fqlbranch.c","fqlplan.c") for e in c[3]):
            CASES.append((c[1]+"-"+c[0],"C30","ok",c[3]))
