"""SQL statement execution: failure propagation over everything reachable from the public calls."""
import ef
MINIMUM={"obligations":100}
def run(ctx):
    P=ctx.prog("libmsi")
    ef.run(ctx,[n for n in P.fns if n.startswith('libmsi_query_') and not P.fns[n].local])
