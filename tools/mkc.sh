#!/bin/bash
cd /verif && python3 -c "
import sys; sys.path.insert(0,'/verif/tools')
import build,os,jobs
b=build.build('conc',**jobs.SETS['conc'])
try: os.unlink('/verif/build/conc')
except OSError: pass
os.symlink(b,'/verif/build/conc')
"
