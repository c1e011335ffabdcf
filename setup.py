#!/usr/bin/env python3
"""builds the IR dumper (the only compiled part of the framework)"""
import os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'eisvc'))
import run
print(run.irdump_bin())
