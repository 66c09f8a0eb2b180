"""C23: see lib/topo_h.py and spec/TopoTrace.tla."""
import topo_h


def run(ctx):
    topo_h.run_lines(ctx)
