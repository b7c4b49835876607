#!/usr/bin/env python3
"""run.py Cnn : decide one property (exit 0 held on everything explored, 1 violated)"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vt, importlib.util, traceback
pid = sys.argv[1]
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks", pid + ".py")
sp = importlib.util.spec_from_file_location("chk", p); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
only = os.environ.get("VT_ONLY")
c = m.check()
if only: c.cfgs = [x for x in c.cfgs if any(o in x.name for o in only.split(";"))]
sys.exit(c.main())
