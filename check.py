#!/usr/bin/env python3
"""usage: check.py PROPERTY [quick|thorough]"""
import importlib.util, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'lib'))
import vf
pid = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
spec = importlib.util.spec_from_file_location(pid, os.path.join(V, 'props', pid + '.py'))
mod = importlib.util.module_from_spec(spec)
mod.Unit = vf.Unit
spec.loader.exec_module(mod)
sys.exit(vf.main(pid, tier, mod))
