#!/usr/bin/env python3
"""Builds the simulators once from the committed files and /repo's working tree."""
import check
print(f"simulator built in {check.build():.1f} s")
check.use("wasm")
print(f"simulator with the browser's search object built in {check.build():.1f} s")
import tscheck
print(f"browser parts bundled in {tscheck.build():.1f} s")
