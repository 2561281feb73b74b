#!/usr/bin/env python3
"""Builds the extractor; the checks build it themselves if it is missing."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import db
db.build_tool()
