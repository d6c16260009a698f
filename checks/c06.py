"""Import, export and merge: failure propagation over everything reachable from the public calls."""
import ef
MINIMUM={"obligations":100}
def run(ctx):
    P=ctx.prog("libmsi")
    ef.run(ctx,['libmsi_database_import','libmsi_database_export','libmsi_database_merge'])
