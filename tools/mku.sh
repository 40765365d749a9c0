#!/bin/bash
cd /verif && python3 -c "
import sys; sys.path.insert(0,'/verif/tools')
import build,os,jobs
b=build.build('units',**jobs.SETS['units'])
try: os.unlink('/verif/build/units')
except OSError: pass
os.symlink(b,'/verif/build/units')
"
