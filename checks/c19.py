"""C19: see lib/shield_h.py and spec/ShieldTrace.tla."""
import shield_h


def run(ctx):
    shield_h.run_slope(ctx)
