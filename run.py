#!/usr/bin/env python3
"""python3 run.py <property id> [--tier quick|thorough]: run one check."""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import vf
prop = sys.argv[1]
mod = importlib.import_module(prop.lower())
vf.main(prop, mod.run, getattr(mod, "LEVEL", "model_checking"))
