"""generated cycler data for the bounded stand-ins (structure/features properties)"""
import datetime


def iso(sec, frac):
    t = datetime.datetime(2020, 3, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(seconds=sec, microseconds=frac)
    return t.isoformat()


def gen_rows(H, p="", ncyc=4, start=None, gaps=False, temp=True, waveform=False, complete_last=None, nan_ir=True):
    """list of row dicts: cycles of CC charge, CV charge, rest, discharge steps with varying lengths"""
    rng = H.rng
    start = rng.choice([0, 1, 1, 2, 7]) if start is None else start
    rows, t, cyc = [], rng.choice([0.0, 12.5]), start
    n = rng.randint(1, ncyc)
    for c in range(n):
        last = c == n - 1
        if gaps and c and rng.random() < 0.3:
            cyc += rng.randint(1, 2)
        q = rng.choice([0.5, 0.95, 1.1, 1.3]) * rng.uniform(0.8, 1.0)
        cc, dc, ce, de = 0.0, 0.0, 0.0, 0.0
        kind = rng.choice(["full", "full", "full", "nocv", "short"])
        segs = []
        if rng.random() < 0.3:
            segs.append(("rest", rng.randint(1, 2)))
        segs.append(("cc", rng.randint(2, 4)))
        if kind != "nocv":
            segs.append(("cv", rng.randint(2, 4)))
        if rng.random() < 0.5:
            segs.append(("rest", rng.randint(1, 2)))
        if kind != "short":
            segs.append(("dc", rng.randint(2, 5)))
        T = rng.uniform(20, 35)
        v = rng.uniform(2.6, 3.1)
        I = rng.uniform(0.5, 3.0)
        for si, (sg, m) in enumerate(segs):
            for j in range(m):
                dt = rng.choice([1.5, 10.0, 60.0, 61.0, 300.0])
                if rng.random() < 0.06:
                    dt = rng.choice([3600.0, 3601.0, 5000.0, 7300.0])
                t += dt
                if sg == "cc":
                    cur = I
                    v = v + (3.6 - v) * rng.uniform(0.2, 0.7)
                    d = q * 0.7 / m
                    cc, ce = cc + d, ce + d * v
                elif sg == "cv":
                    cur = I * (0.6 ** (j + 1)) if j or rng.random() < 0.7 else I
                    v = 3.6
                    d = q * 0.3 / m
                    cc, ce = cc + d, ce + d * v
                elif sg == "dc":
                    cur = -I
                    v = v - (v - 2.5) * rng.uniform(0.2, 0.8)
                    d = q * rng.choice([0.99, 0.99, 0.99, 0.9]) / m
                    dc, de = dc + d, de + d * v
                else:
                    cur = 0.0
                rows.append({"cycle_index": cyc, "step_index": si + 1, "test_time": t, "current": cur, "voltage": v,
                             "charge_capacity": cc, "discharge_capacity": dc, "charge_energy": ce, "discharge_energy": de,
                             "internal_resistance": (float("nan") if nan_ir and rng.random() < 0.2 else rng.uniform(0.01, 0.03)),
                             "temperature": T + rng.uniform(-2, 2),
                             "date_time_iso": iso(int(t), rng.choice([0, 0, 500000, 250000]))})
        cyc += 1
    if not temp:
        for r in rows:
            del r["temperature"]
    return rows


def datapath(H, rows, index=None, cls=None):
    import pandas as pd
    df = pd.DataFrame(rows)
    if index is not None:
        df.index = index
    cls = cls or H.mod("beep.structure.arbin").ArbinDatapath
    return cls(raw_data=df, metadata={"barcode": "b1", "protocol": "p1", "channel_id": 3}, paths={"raw": "/nonexistent/x.csv"})


def by_cycle(rows):
    d = {}
    for r in rows:
        d.setdefault(r["cycle_index"], []).append(r)
    return d
