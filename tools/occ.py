#!/usr/bin/env python3
"""occ.py DIR cmd...: object cache for development (VERIF_OBJCACHE=DIR), keyed on the preprocessed source and the command."""
import sys, os, subprocess, hashlib, shutil
d, cmd = sys.argv[1], sys.argv[2:]
o = cmd[cmd.index("-o") + 1]
e = [c for c in cmd if c != "-c"]; e[e.index("-o"):e.index("-o") + 2] = []
p = subprocess.run([*e, "-E"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
if p.returncode:
    sys.exit(subprocess.call(cmd))
k = hashlib.sha256(repr([c for c in cmd if c != o]).encode() + p.stdout).hexdigest()[:32]
f = os.path.join(d, k)
if not os.path.exists(f):
    r = subprocess.call(cmd)
    if r:
        sys.exit(r)
    os.makedirs(d, exist_ok=True); shutil.copy(o, f + ".tmp%d" % os.getpid()); os.rename(f + ".tmp%d" % os.getpid(), f)
else:
    shutil.copy(f, o); os.utime(f)
