#!/usr/bin/env python3
"""Builds the fact extractor and a first set of facts (the checks rebuild both when they are missing or stale)."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import facts
print(facts.mir_facts_dir())
