S = "beep/utils/splice.py"
P = """
import os, tempfile, warnings
warnings.simplefilter("ignore")
import pandas as pd
from beep.utils.splice import MaccorSplice
D = tempfile.mkdtemp()
C = ["Rec#", "Cyc#", "Test (Sec)", "Loop1", "Loop2", "Loop3", "Loop4"]
def frame(rows):
    return pd.DataFrame([dict(dict.fromkeys(C, 0), Volts=3.5, **{"Rec#": i + 1}) | r for i, r in enumerate(rows)])
s = MaccorSplice(D + "/a", D + "/b", D + "/c")
"""
SEEDS = [
 dict(id="c25-counter-maximum", property="C25",
      edits=[(S, """                data_2[column] = data_2[column] + data_1[column].iloc[-1]""", """                data_2[column] = data_2[column] + data_1[column].max()""")],
      needs="a loop counter that was reset in the first part", breaks="the counter of the second part is raised by a value it does not continue from",
      demo=P + """
a, b = s.column_increment(frame([{"Loop1": 3}, {"Loop1": 7}, {"Loop1": 2}]), frame([{"Loop1": 0}, {"Loop1": 1}]))
assert list(b["Loop1"]) == [2, 3], list(b["Loop1"])
"""),
 dict(id="c25-raised-row-by-row", property="C25",
      edits=[(S, """                data_2[column] = data_2[column] + data_1[column].iloc[-1]""", """                last = data_1[column].iloc[-1]
                data_2[column] = data_2[column].where(
                    data_2[column] >= last, data_2[column] + last
                )""")],
      needs="a second part longer than the last value of the first", breaks="only the records below the last value are raised, so counters repeat and fall",
      demo=P + """
a, b = s.column_increment(frame([{}, {}]), frame([{}, {}, {}, {}]))
assert list(b["Rec#"]) == [3, 4, 5, 6], list(b["Rec#"])
"""),
 dict(id="c25-duplicates-dropped", property="C25",
      edits=[(S, """        data_final = pd.concat([data_1, data_2])
""", """        data_final = pd.concat([data_1, data_2]).drop_duplicates(
            subset=["Rec#", "Test (Sec)"]
        )
""")],
      needs="a part whose counters are not raised or repeat a record number", breaks="records are lost",
      demo=P + """
assert len(s.splice_operation(frame([{}, {}]), frame([{}, {}]))) == 4
"""),
 dict(id="c25-sorted-by-time", property="C25",
      edits=[(S, """        data_final = pd.concat([data_1, data_2])
""", """        data_final = pd.concat([data_1, data_2]).sort_values("Test (Sec)")
""")],
      needs="records with the same test time, or parts that overlap in time", breaks="records change their order",
      demo=P + """
f = s.splice_operation(frame([{"Test (Sec)": 5}] * 40), frame([{"Test (Sec)": 5 + (i % 2)} for i in range(40)]))
assert list(f["Rec#"]) == [1 + i for i in range(40)] * 2 or list(f["Rec#"])[:40] == list(range(1, 41)) and list(f["Rec#"])[40:] == list(range(1, 41)), list(f["Rec#"])
"""),
]
