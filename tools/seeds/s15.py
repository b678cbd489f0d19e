B = "beep/protocol/biologic_mb_to_maccor.py"
P = """
import warnings
warnings.simplefilter("ignore")
from beep.protocol.biologic_mb_to_maccor import BiologicMbToMaccorProcedure as B
def seq(ns, ctype, to=0, rep=0, lims=(), recs=(), vs="", val="1.500", unit="A"):
    s = {"Ns": str(ns), "ctrl_type": ctype, "ctrl1_val": val, "ctrl1_val_unit": unit, "ctrl1_val_vs": vs, "charge/discharge": "Discharge", "ctrl_seq": str(to), "ctrl_repeat": str(rep),
         "lim_nb": str(len(lims)), "rec_nb": str(len(recs))}
    for i in (1, 2, 3):
        s.update({"lim%d_type" % i: "Time", "lim%d_comp" % i: ">", "lim%d_value" % i: "0.000", "lim%d_value_unit" % i: "s", "lim%d_action" % i: "Next sequence", "lim%d_seq" % i: str(ns + 1),
                  "rec%d_type" % i: "Time", "rec%d_value" % i: "0.000", "rec%d_value_unit" % i: "s"})
    for i, (t, c, v, u, a, g) in enumerate(lims, 1):
        s.update({"lim%d_type" % i: t, "lim%d_comp" % i: c, "lim%d_value" % i: v, "lim%d_value_unit" % i: u, "lim%d_action" % i: a, "lim%d_seq" % i: str(g)})
    for i, (t, v, u) in enumerate(recs, 1):
        s.update({"rec%d_type" % i: t, "rec%d_value" % i: v, "rec%d_value_unit" % i: u})
    return s
def L(a="Next sequence", g=0, t="Time", c=">", v="5.000", u="s"):
    return (t, c, v, u, a, g)
def ends(s):
    return [] if not s["Ends"] else [s["Ends"]["EndEntry"]] if isinstance(s["Ends"]["EndEntry"], dict) else s["Ends"]["EndEntry"]
"""
SEEDS = [
 dict(id="c24-time-limit-operator", property="C24",
      edits=[(B, """            elif lim_comp == ">" and lim_type == "Time":""", """            elif lim_comp == ">" and lim_type == "Time" and not ends:""")],
      needs="a time limit that is not the first limit of its sequence", breaks="the second time limit gets the comparison of a voltage",
      demo=P + """
s = B._create_steps([seq(0, "CC", lims=[L(t="Ecell", v="4.000", u="V"), L()])])
assert [e["Oper"].strip() for e in ends(s[0])] == [">=", "="], ends(s[0])
"""),
 dict(id="c24-goto-self-enters-do", property="C24",
      edits=[(B, """                and goto_seq > seq_num
                and goto_seq in seq_num_is_active_loop_start""", """                and goto_seq >= seq_num
                and goto_seq in seq_num_is_active_loop_start""")],
      needs="the first sequence of a loop that repeats itself", breaks="the repetition starts the loop again at its Do step and resets the count",
      demo=P + """
s = B._create_steps([seq(0, "CC", lims=[L("Goto sequence", 0)]), seq(1, "Loop", 0, 3)])
assert [x["StepType"].strip() for x in s][:2] == ["Do 1", "Dischrge"] and ends(s[1])[0]["Step"] == "002", s
"""),
 dict(id="c24-empty-loop-shifts", property="C24",
      edits=[(B, """            if is_loop and loop_count == 0:
                seq_num_is_blank_loop.update([seq_num])
                continue
            elif (""", """            if is_loop and loop_count == 0:
                seq_num_is_blank_loop.update([seq_num])
                if seq_num and seqs[i - 1]["ctrl_type"] == "Loop" and seqs[i - 1]["ctrl_repeat"] == "0":
                    curr_step += 1
                continue
            elif (""")],
      needs="two empty loops one after the other", breaks="jumps after the empty loops lead one step too far",
      demo=P + """
s = B._create_steps([seq(0, "Loop"), seq(1, "Loop"), seq(2, "CC", lims=[L("End")]), seq(3, "Rest", lims=[L()])])
assert ends(s[0])[0]["Step"] == "003", s
"""),
 dict(id="c24-jump-over-later-loop", property="C24",
      edits=[(B, """            if seq["ctrl_type"] == "Loop":
                last_loop_end = seq_num
                continue

            seq_belongs_to_loop""", """            if seq["ctrl_type"] == "Loop":
                last_loop_end = max(last_loop_end, int(seq["ctrl_seq"]))
                continue

            seq_belongs_to_loop""")],
      needs="a sequence after a loop that jumps back to the middle of the loop's end", breaks="jumps back into a finished loop are converted",
      demo=P + """
try:
    B._create_steps([seq(0, "CC", lims=[L()]), seq(1, "CC", lims=[L()]), seq(2, "Loop", 0, 3), seq(3, "CC", lims=[L("Goto sequence", 0)])])
except Exception:
    pass
else:
    raise SystemExit("jump into a finished loop converted")
"""),
 dict(id="c24-record-needs-limit", property="C24",
      edits=[(B, """        for rec_num in range(1, num_records + 1):""", """        for rec_num in range(1, (num_records if num_limits else min(num_records, 1)) + 1):"""),
             (B, """        assert len(reports) == num_records
""", "")],
      needs="a sequence without limits that records two quantities", breaks="only the first is reported", demo=P + """
s = B._create_steps([seq(0, "CC", recs=[("Time", "1.000", "s"), ("Ecell", "0.100", "V")])])
assert len(s[0]["Reports"]["ReportEntry"]) == 2, s
"""),
 dict(id="c24-current-limit-sign", property="C24",
      edits=[(B, """                end_entry["EndType"] = "Current "
                end_entry["Value"] = cls._convert_current(
                    lim_val, lim_unit""", """                end_entry["EndType"] = "Current "
                end_entry["Value"] = cls._convert_current(
                    max(lim_val, 0.001), lim_unit""")],
      needs="a limit on a current below a milliampere", breaks="the step ends at another current", demo=P + """
s = B._create_steps([seq(0, "CV", vs="Ref", unit="V", lims=[L(t="I", c="<", v="0.000", u="mA")])])
assert float(ends(s[0])[0]["Value"]) == 0, s
"""),
 dict(id="c24-last-sequence-dropped", property="C24",
      edits=[(B, """        if len(seqs) > 0 and seqs[-1]["Ns"] == "":
            seqs = seqs[:-1]""", """        if len(seqs) > 0 and seqs[-1]["ctrl1_val"] == "":
            seqs = seqs[:-1]""")],
      needs="a protocol that ends with a rest or a loop", breaks="the last sequence is missing in the procedure",
      demo=P + """
from collections import OrderedDict
s = OrderedDict([("1", seq(0, "CC", lims=[L()])), ("2", seq(1, "Rest", lims=[L()], val=""))])
assert len(B._get_seqs({"Technique": {"1": {"Type": "Modulo Bat", "Step": s}}})) == 2
"""),
]
