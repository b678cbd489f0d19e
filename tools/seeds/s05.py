SEEDS = [
 dict(id="c12-mps-cell-truncated", property="C12",
      edits=[("beep/protocol/biologic.py", "                        line = line + var.ljust(column_width)", "                        line = line + var[: column_width - 1].ljust(column_width)")],
      needs="a BioLogic cell text that fills its 20 character column", breaks="its last character is lost in the written file",
      demo='''
import os
from beep.protocol import BIOLOGIC_TEMPLATE_DIR
from beep.protocol.biologic import Settings
D = os.environ["DEMO_DIR"]
s = Settings.from_file(os.path.join(BIOLOGIC_TEMPLATE_DIR, "formationV1.mps"))
s["Technique"]["1"]["Step"]["2"]["lim1_action"] = "abcdefghijklmnopqrst"
s.to_file(D + "/x.mps")
t = Settings.from_file(D + "/x.mps")
assert t["Technique"]["1"]["Step"]["2"]["lim1_action"] == "abcdefghijklmnopqrst"
assert t == s
'''),
 dict(id="c12-maccor-padding-kept", property="C12",
      edits=[("beep/protocol/maccor.py", "        formatted = deepcopy(self)\n", "        formatted = type(self)(self)\n")],
      needs="using a procedure object after it was written", breaks="writing pads the texts of the object itself, so later step type comparisons fail",
      demo='''
import os, copy
from beep.protocol import PROCEDURE_TEMPLATE_DIR
from beep.protocol.maccor import Procedure
D = os.environ["DEMO_DIR"]
p = Procedure.from_file(os.path.join(PROCEDURE_TEMPLATE_DIR, "EXP.000"))
q = copy.deepcopy(p)
p.to_file(D + "/x.000")
assert p == q
assert Procedure.from_file(D + "/x.000") == q
'''),
]
