#!/usr/bin/env python3
"""Builds every harness once (checks rebuild what they need from /repo's working tree anyway)."""
import os, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.realpath(__file__)))
import vf
crates = sorted(d for d in os.listdir(os.path.join(vf.VERIF, "harness")) if os.path.exists(os.path.join(vf.VERIF, "harness", d, "Cargo.toml")))
os.makedirs(vf.TARGET, exist_ok=True)
# the crate of generated bindings is built once without any, for its dependencies
os.environ["PEN_GEN"] = os.path.join(vf.TARGET, "binding-empty.rs")
open(os.environ["PEN_GEN"], "w").write("use super::*; pub static CALLS: [Call; 0] = [];\n")
def one(c):
    try:
        vf.build(c)
        return None
    except Exception as e:
        return "%s: %s" % (c, e)
with ThreadPoolExecutor(3) as ex:
    errors = [e for e in ex.map(one, crates) if e]
print("\n".join(errors) or "built %s" % " ".join(crates))
sys.exit(1 if errors else 0)
