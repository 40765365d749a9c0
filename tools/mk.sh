#!/bin/bash
cd /verif && python3 -c "
import sys; sys.path.insert(0,'/verif/tools')
import build,os
b=build.build('cluster',['arena.cc','sim.cc','cluster.cc'])
try: os.unlink('/verif/build/cluster')
except OSError: pass
os.symlink(b,'/verif/build/cluster')
"
