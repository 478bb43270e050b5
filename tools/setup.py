#!/usr/bin/env python3
"""Builds the instrumented drivers once, so that the checks find them ready."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
print(vlib.build("asan"))
print(vlib.build("asan", "drvd.c"))
print(vlib.build("asan", "front.c"))
print(vlib.build("tsan", "conc.c"))
print(vlib.build("plain", "conc.c"))
print(vlib.build("msan"))
print(vlib.build("fuzz", "tok.c"))
print(vlib.build("fuzzm", "tok.c"))
