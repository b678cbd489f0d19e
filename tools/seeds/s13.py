A = "beep/protocol/generate_protocol.py"
P = """
import os, tempfile, warnings, glob
warnings.simplefilter("ignore")
import pandas as pd
import beep
from beep.protocol.generate_protocol import generate_protocol_files_from_csv
B = os.path.dirname(beep.__file__)
def table(name):
    return pd.read_csv(glob.glob(B + "/**/" + name + "_parameters - GP.csv", recursive=True)[0])
D = tempfile.mkdtemp()
def run(t):
    t.to_csv(D + "/Mix_parameters - GP.csv", index=False)
    return generate_protocol_files_from_csv(D + "/Mix_parameters - GP.csv", D)
def mixed(*templates):
    t = table("PreDiag").iloc[[0] * len(templates)].copy()
    t["seq_num"] = range(len(t))
    t["template"] = templates
    return t
OK = "diagnosticV3.000"
"""
SEEDS = [
 dict(id="c22-diagnostics-of-first-row", property="C22",
      edits=[(A, """            if "diagnostic_parameter_set" in protocol_params:  # For""", """            if index == 0 and "diagnostic_parameter_set" in protocol_params:  # For""")],
      needs="a table whose rows name different diagnostic parameter sets", breaks="all rows get the diagnostic cycles of the first row's cell type",
      demo=P + """
t = mixed(OK, OK)
t["diagnostic_parameter_set"] = ["Tesla21700", "18650HD2"]
r = run(t)
b = open(r[0][1]).read()
t["diagnostic_parameter_set"] = ["18650HD2", "18650HD2"]
r = run(t)
assert open(r[0][1]).read() == b
"""),
 dict(id="c22-schedule-template-success", property="C22",
      edits=[(A, """            logger.warning("Schedule file generation not yet implemented")
            result = "error"
""", """            logger.warning("Schedule file generation not yet implemented")
""")],
      needs="a row with an Arbin schedule template and no other failing row", breaks="success is reported though a row failed",
      demo=P + """
r = run(mixed(OK, "cell.sdu"))
assert r[2] == "error", r
"""),
 dict(id="c22-names-of-failed-rows", property="C22",
      edits=[(A, """        if ".000" in template:  # Extension for maccor""", """        names.append(filename_prefix + "_")
        if ".000" in template:  # Extension for maccor"""),
             (A, """        successfully_generated_files.append(filename)
        names.append(filename_prefix + "_")
""", """        successfully_generated_files.append(filename)
""")],
      needs="a row whose template is not available", breaks="the names file lists runs without protocol",
      demo=P + """
run(mixed(OK, "nothere.000", OK))
f = glob.glob(D + "/names/*.csv")
assert len(open(f[0]).read().split()) == 2, open(f[0]).read()
"""),
 dict(id="c22-row-position", property="C22",
      edits=[(A, """                    protocol = Procedure.generate_procedure_regcyclev3(index,
""", """                    protocol = Procedure.generate_procedure_regcyclev3(len(successfully_generated_files),
""")],
      needs="a failing row before a usable one", breaks="the later procedure is made for another position of the table",
      demo=P + """
a = mixed(OK, OK, OK)
r = run(a)
want = open(r[0][2]).read()
a["template"] = ["nothere.000", "nothere.000", OK]
r = run(a)
assert open(r[0][0]).read() == want
"""),
 dict(id="c22-failure-listed-once", property="C22",
      edits=[(A, """            file_generation_failures.append(failure)
            warnings.warn("Unsupported file template {}, skipping.".format(template))
            result = "error"
            continue

        logger""", """            if failure not in file_generation_failures:
                file_generation_failures.append(failure)
            warnings.warn("Unsupported file template {}, skipping.".format(template))
            result = "error"
            continue

        logger""")],
      needs="two rows with the same unsupported template", breaks="a failed row is not accounted for",
      demo=P + """
r = run(mixed("other.mps", OK, "other.mps"))
assert len(r[1]) == 2 and "1 of 3" in r[3]["comment"], r
"""),
]
