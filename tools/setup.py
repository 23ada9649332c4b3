#!/usr/bin/env python3
"""Builds what the checks use (each check also does so itself), and tests the geometry module."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
vlib.build()
vlib.model("GeomTest")
vlib.build_repo("image-palette-recoloring-cli")
