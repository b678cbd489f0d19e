SEEDS = [
 dict(id="c01-step-pattern-exact", property="C01",
      edits=[("beep/structure/diagnostic.py", "elif all_present and len(unique) == len(set(step_pattern)):",
              "elif all_present and len(unique) == len(step_pattern):")],
      needs="an 'exact' pattern that names a step number twice", breaks="a cycle that consists of exactly the named steps is not recognised as diagnostic",
      demo='''
import pandas as pd
from beep.structure.diagnostic import DiagnosticConfig
df = pd.DataFrame({"cycle_index": [1, 1, 2, 2], "step_index": [12, 13, 4, 5]})
d = DiagnosticConfig.from_step_numbers(df, {"rpt": ("exact", [(12, 13, 12)])})
assert d.rpt_ix == frozenset({1}), d.rpt_ix
'''),
 dict(id="c02-max-last-row", property="C02",
      edits=[("beep/structure/validate.py", "diff_series = dataframe[column_name].diff().dropna()\n                if len(diff_series[diff_series < 0]) > 0:",
              "values = dataframe[column_name].dropna()\n                if len(values) and values.iloc[-1] < values.iloc[0]:")],
      needs="a column that drops and recovers inside the record", breaks="non-monotonic data passes the monotonic rule",
      demo='''
import json, os
import pandas as pd
from beep.structure.validate import SimpleValidator
p = os.path.join(os.environ["DEMO_DIR"], "s.json")
json.dump({"test_time": {"schema": {"monotonic": "increasing"}, "type": "list"}}, open(p, "w"))
v = SimpleValidator(p)
assert v.validate(pd.DataFrame({"test_time": [1.0, 5.0, 2.0, 6.0]}))[0] is False
assert v.validate(pd.DataFrame({"test_time": [1.0, 2.0, 2.0, 6.0]}))[0] is True
'''),
 dict(id="c03-loop-and-sequence", property="C03",
      edits=[("beep/protocol/maccor_to_biologic_mb.py", """                cycle_num += cycle_advancement_rules.adv_cycle_seq_transitions.get(transition, 0)

            prev_loop_num = loop_num
            prev_seq_num = seq_num
""", """                cycle_num += cycle_advancement_rules.adv_cycle_seq_transitions.get(transition, 0)
                prev_seq_num = seq_num

            prev_loop_num = loop_num
""")],
      needs="a row where the technique-loop number and the sequence number change together, followed by another sequence change",
      breaks="the transition after a technique loop is looked up from a stale sequence number, so cycles are not advanced",
      demo='''
import json, os
import pandas as pd
from beep.protocol.maccor_to_biologic_mb import add_cycle_nums_to_csvs
d = os.environ["DEMO_DIR"]
json.dump({"tech_num": 1, "tech_does_loop": True, "adv_cycle_on_start": 0, "adv_cycle_on_tech_loop": 1,
           "adv_cycle_seq_transitions": [{"source": 0, "target": 1, "adv_cycle_count": 1}],
           "debug_adv_cycle_on_step_transitions": []}, open(d + "/r.json", "w"))
pd.DataFrame({"Ns": [0, 1, 2, 0, 1], "Loop": [0, 0, 0, 1, 1]}).to_csv(d + "/i.csv", sep=";", index=False)
add_cycle_nums_to_csvs([d + "/i.csv"], [d + "/r.json"], [d + "/o.csv"])
got = pd.read_csv(d + "/o.csv", sep=";").cycle_index.tolist()
assert got == [1, 2, 2, 3, 4], got
'''),
 dict(id="c04-debug-transition-zero", property="C04",
      edits=[("beep/structure/biologic.py", """        for d in data["adv_cycle_seq_transitions"]:
            transition = (d["source"], d["target"])
            adv_cycle_seq_transitions[transition] = d["adv_cycle_count"]
""", """        for d in data["adv_cycle_seq_transitions"]:
            transition = (d["source"], d["target"])
            adv_cycle_seq_transitions[transition] = max(1, d["adv_cycle_count"])
""")],
      needs="a transition listed with an advance of zero", breaks="a rule that says 'do not advance' comes back as 'advance by one'",
      demo='''
from beep.structure.biologic import CycleTransitionRules, CycleTransitionRulesSerializer
s = CycleTransitionRulesSerializer()
r = CycleTransitionRules(2, False, 0, 0, {(1, 2): 0, (2, 1): 3}, {})
b = s.parse_json(s.json(r))
assert b.adv_cycle_seq_transitions == {(1, 2): 0, (2, 1): 3}, b.adv_cycle_seq_transitions
'''),
]
