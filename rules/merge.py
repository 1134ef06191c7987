"""P31: the log checker and the results database."""
import ast
from .common import *

LOGS = "sorcha.utilities.check_output_logs:"
SQL = "sorcha.utilities.createResultsSQLDatabase:"

spec("merge", '''
import os, sys, glob, sqlite3
import pandas as pd
from sorcha.utilities.check_output_logs import find_all_log_files, check_all_logs
from sorcha.utilities.createResultsSQLDatabase import get_column_names, create_results_table, create_inputs_table

def found(filepath):
    return sorted([os.path.join(d, f) for d, _, fs in os.walk(filepath) for f in fs if f.endswith("sorcha.log")])

def verdict(log_files):
    good, last = [], []
    for n in log_files:
        with open(n) as f:
            lines = f.read().splitlines()
        end = lines[-1] if lines else ""
        ok = end.endswith("Sorcha process is completed. ")
        good.append(ok)
        last.append(" " if ok else end)
    return good, last

def report(filepath, output=False):
    fs = find_all_log_files(filepath)
    if len(fs) == 0:
        sys.exit("none")
    good, last = check_all_logs(fs)
    t = pd.DataFrame({"log_filename": fs, "run_successful": good, "log_lastline": last})
    if len(t[~t["run_successful"]]) > 0:
        if output:
            t.to_csv(os.path.join(output), index=False)

def columns(filename, table_name="sorcha_results"):
    cur = sqlite3.connect(filename).cursor()
    cur.execute("SELECT * from " + table_name)
    out = [x[0] for x in cur.description]
    cur.close()
    return out

def results(cnx_out, filename, output_path, output_stem, table_name="sorcha_results"):
    fs = glob.glob(os.path.join(glob.escape(output_path), "**", output_stem + "*.db"), recursive=True)
    if filename in fs:
        fs.remove(filename)
    if not fs:
        sys.exit("none")
    names = get_column_names(fs[0])
    cur_out = cnx_out.cursor()
    cur_out.execute("DROP TABLE if exists " + table_name)
    cur_out.execute("CREATE TABLE " + table_name + "(" + "[" + "], [".join(names) + "]" + ")")
    cmd = "INSERT into " + table_name + " VALUES " + "(" + (len(names) - 1) * "?, " + "?)"
    for n in fs:
        cur = sqlite3.connect(n).cursor()
        cur.execute("SELECT * FROM sorcha_results")
        for row in cur.fetchall():
            cur_out.execute(cmd, row)
    cnx_out.commit()

def inputs(cnx_out, input_path, table_type):
    fs = glob.glob(glob.escape(input_path) + "/" + table_type + "*", recursive=True)
    if not fs:
        sys.exit("none")
    cnx_out.cursor().execute("DROP TABLE if exists " + table_type)
    for n in fs:
        df = pd.read_csv(n, sep="\\\\s+")
        if "INDEX" in df.columns:
            df = df.rename(columns={"INDEX": "orig_index"})
        df.to_sql(table_type, cnx_out, if_exists="append")

def database(args):
    c = sqlite3.connect(args.output)
    create_results_table(c, args.output, args.results, args.stem if args.stem else "")
    create_inputs_table(c, args.inputs, "params")
    create_inputs_table(c, args.inputs, "orbits")
    if args.complex:
        create_inputs_table(c, args.inputs, "complex")
''')


@prop("P31")
def logs(ctx):
    """each log file found once and judged by its last line; the report written when asked"""
    same(ctx, "logs found", LOGS + "find_all_log_files", "merge:found")
    same(ctx, "verdict", LOGS + "check_all_logs", "merge:verdict")
    same_effects(ctx, "report", LOGS + "check_output_logs", "merge:report", opaque=(LOGS + "find_all_log_files", LOGS + "check_all_logs"))


@prop("P31", "P19")
def merging(ctx):
    """every result and input file found goes into its table once, the database itself apart"""
    same(ctx, "columns", SQL + "get_column_names", "merge:columns")
    same_effects(ctx, "results table", SQL + "create_results_table", "merge:results", opaque=(SQL + "get_column_names",))
    same_effects(ctx, "input tables", SQL + "create_inputs_table", "merge:inputs")
    op = (SQL + "create_results_table", SQL + "create_inputs_table")
    same_effects(ctx, "database", SQL + "create_results_database", "merge:database", opaque=op, names=WRITERS | set(op))
