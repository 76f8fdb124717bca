"""Builds the harness once (fills go's build cache) and parses the specs."""
import sys
sys.dont_write_bytecode = True
import vlib

ctx = vlib.Ctx("setup")
try:
    vlib.build(ctx)
    print("setup: harness builds")
finally:
    ctx.close()
