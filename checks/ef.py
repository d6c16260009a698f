"""Shared set-up of the error-flow checks: which failures are expected and handled."""
import errflow
from errflow import *
# codes that are answers, not failures
def soft(P):
    C=P.enum
    cont=C("LIBMSI_RESULT_CONTINUE"); more=C("LIBMSI_RESULT_MORE_DATA"); nf=C("LIBMSI_RESULT_NOT_FOUND")
    def f(n):
        s=[NOMORE]
        if n in("where_view_evaluate","check_condition","expr_eval_binary","expr_eval_unary","expr_eval_strcmp","expr_eval_string","expr_fetch_value"): s.append(cont)
        if n=="_libmsi_record_get_string": s.append(more)
        if n=="get_table_value_from_record": s.append(nf)
        return tuple(s)
    return f
# (caller, callee) -> (sites, reason): the failure is an answer the caller acts on
HANDLED={
 ("distinct_view_execute","distinct_insert"):(1,"returns the address of a list slot, never NULL; the slot's content is tested"),
 ("msi_create_stream","encode_streamname"):(1,"fails on memory exhaustion only"),
 ("table_view_fetch_stream","encode_streamname"):(1,"fails on memory exhaustion only"),
 ("msi_record_encoded_stream_name","encode_streamname"):(1,"fails on memory exhaustion only"),
 ("msi_get_raw_stream","clone_infile_stream"):(1,"not in the file: looked up in the transforms next"),
 ("msi_get_raw_stream","gsf_infile_child_by_name"):(1,"not in this transform: looked up in the next one"),
 ("msi_export_stream","g_file_make_directory_with_parents"):(1,"the directory may already exist; creating the file in it fails otherwise"),
 ("msi_export_record","_libmsi_record_get_gsf_input"):(1,"the field is not a stream: exported as text"),
 ("init","msi_init_string_table"):(1,"fails on memory exhaustion only"),
 ("msi_view_get_row","_LibmsiViewOps->fetch_stream"):(1,"a null binary cell has no stream: the field stays null"),
 ("msi_addstring","_libmsi_id_from_string"):(1,"not in the pool yet: added"),
 ("msi_addstring","g_convert_with_iconv"):(1,"undecodable pool entry: reported by warning, left empty"),
 ("_libmsi_add_string","_libmsi_id_from_string_utf8"):(1,"not in the pool yet: added"),
 ("msi_load_string_table","msi_addstring"):(1,"damaged pool entry: reported by warning, entries checked by the reader of the cell"),
 ("read_table_from_storage","read_stream_data"):(1,"a table without rows has no stream"),
 ("get_tablecolumns","get_defaulttablecolumns"):(1,"not a built-in table: looked up in the column table"),
 ("table_validate_new","msi_table_find_row"):(1,"no row with this key yet: that is what is validated"),
 ("table_view_find_matching_rows","_LibmsiViewOps->fetch_int"):(1,"row not indexed"),
 ("where_view_find_matching_rows","_LibmsiViewOps->fetch_int"):(1,"unused by any statement"),
 ("msi_row_matches","table_view_fetch_int"):(1,"no match"),
 ("msi_table_find_row","msi_row_matches"):(1,"no match: the next row is compared"),
 ("where_view_verify_condition","parse_column"):(1,"reported through the validity flag"),
}
# the failure is made up for by calling one of these
ErrRule.recover={("table_view_set_row","get_table_value_from_record"):{"_libmsi_add_string"}}
EXCLUDED={"msi_table_load_transform","msi_table_apply_transform","msi_get_transform_record","libmsi_database_apply_transform"}
def run(ctx,roots,minus=(),files=None):
    P=ctx.prog("libmsi")
    for r in roots: ctx.need(r in P.fns,"function %s not found"%r)
    names=P.reachable(roots)-set(minus)-EXCLUDED
    if files: names={n for n in names if rel(P.fns[n].file) in files or n in files}
    if ctx.thorough: Explorer.CAP=400
    fs,st=errflow.run(P,[P.fns[n] for n in sorted(names)],soft(P),assume={"_libmsi_database_close":{1:True}})
    ctx.count("obligations",st["sites"]); ctx.count("path_steps",st["states"]); ctx.count("functions_with_failure_result",st["functions"])
    ctx.fns(names)
    if st.get("widened"): ctx.counts["functions_with_merged_paths"]=len(st["widened"])
    by={}
    for (fn,sid),(n,I) in fs.items():
        F=P.fns[fn]; S=F.insts[sid]
        by.setdefault((F.src,n),[]).append((S,I))
    handled=0
    for (caller,callee),l in sorted(by.items()):
        h=HANDLED.get((caller,callee))
        if h and len(l)<=h[0]: handled+=len(l); continue
        for S,I in l:
            ctx.find("%s->%s"%(caller,callee),P.loc(S),"a failure of %s here can reach the end of %s (%s) without being reported"%(callee,caller,P.loc(I)))
    ctx.count("expected_failures_handled",handled)
    ctx.rule("For every call of a fallible function (result code, NULL, FALSE, negative or short count), every feasible path on which it failed must leave the caller with its own failure value; feasibility is decided by intervals, comparisons, memory cells and callee contracts along the path.")
    ctx.assume+=["memory exhaustion is not considered","calls through function pointers go to the functions stored in the constant operation tables"]
    for k in list(by)[:0]: pass
    return P
