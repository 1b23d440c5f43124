import glob, os
CASES=[]
for f in sorted(glob.glob("/verif/dev/m_*.py")):
    if os.path.basename(f) in ("m_c30.py","m_c08.py","m_c11.py","m_c23.py"): continue
    g={}
    try: exec(open(f).read(), g)
    except Exception as e: continue
    for c in g.get("CASES",[]):
        if c[2]=="ok": CASES.append((c[1].replace(" ","+")+"-"+c[0],"C08 C11 C23 C30","ok",c[3]))
