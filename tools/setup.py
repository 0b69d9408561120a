"""Check that the tools the checks need are there"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vlib'))
import llir
for t in ('clang++', 'opt', 'llvm-link'):
    try:
        print(t, llir.tool(t))
    except Exception as e:
        print(t, e)
