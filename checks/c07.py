"""Summary information, records, opening a database and the remaining public calls: failure propagation."""
import ef
MINIMUM={"obligations":30}
def run(ctx):
    P=ctx.prog("libmsi")
    done=P.reachable([n for n in P.fns if n.startswith("libmsi_query_")]+["libmsi_database_import","libmsi_database_export","libmsi_database_merge"])
    roots=[n for n in P.fns if not P.fns[n].local and n.startswith(("libmsi_summary_info_","libmsi_record_","libmsi_database_"))]+["init"]
    roots=[r for r in roots if r not in("libmsi_database_import","libmsi_database_export","libmsi_database_merge")]
    ef.run(ctx,roots,files={'libmsi/libmsi-summary-info.c','libmsi/libmsi-record.c','libmsi/libmsi-istream.c','msi_load_string_table','_libmsi_database_open','_libmsi_database_start_transaction','init','write_raw_stream_data','msi_get_raw_stream','read_stream_data','libmsi_database_get_primary_keys','_libmsi_database_get_primary_keys','libmsi_database_is_table_persistent','cache_infile_structure','clone_infile_stream'})
