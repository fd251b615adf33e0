#!/usr/bin/env python3
"""Builds what the checks share: the arithmetic override for TLC."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

core.build_classes()
print("built", core.CLASSES)
