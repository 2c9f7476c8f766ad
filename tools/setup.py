#!/usr/bin/env python3
"""Builds every harness once, so that the first check does not pay for it.  A check builds what it lacks itself."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
for src in sorted({(f, v[0]) for v in check.PROPS.values() if v[1] != "python" for f in v[1].split("+")}):
    if os.path.exists(os.path.join(check.VERIF, "harness", src[1])):
        print(check.build(*src))
sys.path.insert(0, os.path.join(check.VERIF, "py"))
import common
for flavour in ("rel", "asan"):
    print(common.build_ext(flavour))
