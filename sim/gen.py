"""Workload generator and renderer: RINEX 2/3 OBS and NAV, SP3.

A *spec* is an explicit JSON value (the truth: which numbers exist, where).
`render(spec)` turns it into file bytes plus, for every record, the byte spans
of its values, so that a model can tell for any cut position what was
delivered.  Nothing here imports georinex: the truth is never derived from the
code under test.
"""
from __future__ import annotations
import copy
import random
import zlib
from datetime import datetime, timedelta

EPOCH = datetime(1970, 1, 1)


def us(dt: datetime) -> int:
    return (dt - EPOCH) // timedelta(microseconds=1)


def dt(t: int) -> datetime:
    return EPOCH + timedelta(microseconds=t)


# --------------------------------------------------------------------------
class Buf:
    """byte builder that keeps offsets (text is latin-1: one char, one byte)"""

    def __init__(self, nl: str):
        self.parts: list[str] = []
        self.n = 0
        self.nl = nl

    def raw(self, s: str) -> tuple[int, int]:
        a = self.n
        self.parts.append(s)
        self.n += len(s)
        return a, self.n

    def line(self, s: str) -> tuple[int, int]:
        a, b = self.raw(s)
        self.raw(self.nl)
        return a, b

    def bytes(self) -> bytes:
        return "".join(self.parts).encode("latin-1")


def f14_3(v: int) -> str:
    s = f"{abs(v) // 1000}.{abs(v) % 1000:03d}"
    if v < 0:
        s = "-" + s
    assert len(s) <= 14, v
    return s.rjust(14)


def hline(content: str, label: str, trim: bool = False) -> str:
    s = f"{content:60.60s}{label}"
    return s if trim else f"{s:80s}"


def secfield(t: int, width: int, nd: int) -> str:
    d = dt(t)
    frac = f"{d.microsecond * 10:07d}"[:nd]
    return f"{d.second}.{frac}".rjust(width)


# --------------------------------------------------------------------------
OBS2_TYPES = ["P1", "P2"] + [k + b for k in "CLDS" for b in "125678"]
OBS3_TYPES = {
    "G": [k + b for b in ("1C", "1W", "2W", "2X", "5X", "1X", "2L") for k in "CLDS"],
    "R": ["C1C", "L1C", "D1C", "S1C", "C1P", "L1P", "C2C", "L2C", "S2C", "C2P", "L2P", "D2P", "S2P", "C3X", "L3X"],
    "E": ["C1X", "L1X", "D1X", "S1X", "C5X", "L5X", "D5X", "S5X", "C7X", "L7X", "S7X", "C8X", "L8X", "D8X", "S8X"],
    "C": ["C2I", "L2I", "D2I", "S2I", "C7I", "L7I", "S7I", "C6I", "L6I", "S6I", "C1X", "L1X", "D1X", "S1X"],
    "J": ["C1C", "L1C", "S1C", "C2X", "L2X", "S2X", "C5X", "L5X", "S5X"],
    "S": ["C1C", "L1C", "D1C", "S1C", "C5I", "L5I", "S5I"],
    "I": ["C5A", "L5A", "D5A", "S5A"],
}
NSV = {"G": 32, "R": 27, "E": 36, "C": 63, "J": 10, "S": 58, "I": 14}


def render_obs2(sp: dict) -> tuple[bytes, list]:
    st = sp["style"]
    b = Buf("\r\n" if st.get("crlf") else "\n")
    trimh = st.get("trimh", False)
    for _ in range(st.get("lead", 0)):
        b.line("")
    sysname = {"M": "M (MIXED)", "G": "G (GPS)", "R": "R (GLONASS)", "E": "E (GALILEO)"}.get(sp["sys"], sp["sys"])
    b.line(hline(f"{sp['ver']:>9s}{'':11s}{'OBSERVATION DATA':20s}{sysname:20s}", "RINEX VERSION / TYPE"))
    b.line(hline("simgen              verif               20260101 000000 UTC", "PGM / RUN BY / DATE", trimh))
    for c in st.get("comments", []):
        b.line(hline(c, "COMMENT", trimh))
    b.line(hline(sp.get("marker", "SIM0"), "MARKER NAME", trimh))
    b.line(hline("1234                RX MODEL            1.0", "REC # / TYPE / VERS", trimh))
    if sp.get("pos"):
        b.line(hline("".join(f14_3(v * 10)[:-1].rjust(14) for v in [p // 10 * 1 for p in sp["pos"]]) if False else "".join(f"{p / 1000:14.4f}" for p in sp["pos"]), "APPROX POSITION XYZ", trimh))
    b.line(hline("     1     1", "WAVELENGTH FACT L1/2", trimh))
    ty = sp["types"]
    for i in range(0, len(ty), 9):
        head = f"{len(ty):6d}" if i == 0 else f"{'':6s}"
        b.line(hline(head + "".join(f"{x:>6s}" for x in ty[i : i + 9]), "# / TYPES OF OBSERV", trimh))
    if sp.get("interval"):
        b.line(hline(f"{sp['interval']:>10s}", "INTERVAL", trimh))
    t0 = sp.get("t0", sp["epochs"][0]["t"] if sp["epochs"] else us(datetime(2010, 3, 5)))
    d = dt(t0)
    b.line(hline(f"{d.year:6d}{d.month:6d}{d.day:6d}{d.hour:6d}{d.minute:6d}{secfield(t0, 13, 7)}{'':5s}{sp.get('tsys', 'GPS'):3s}", "TIME OF FIRST OBS", trimh))
    for c, lab in sp.get("hx", []):
        b.line(hline(c, lab, trimh))
    b.line(hline("", "END OF HEADER", trimh))
    hend = b.n
    recs = []
    trim = st.get("trim", False)
    for ep in sp["epochs"]:
        start = b.n
        for k, ev in enumerate(ep.get("pre", [])):
            tstr = ""
            if ev.get("timed"):
                e = dt(ep["t"])
                tstr = f" {e.year % 100:02d} {e.month:2d} {e.day:2d} {e.hour:2d} {e.minute:2d}{secfield(ep['t'], 11, 7)}"
            if ev["flag"] == 6:  # cycle slips: a record in the format of observations
                names = [sv for sv, _ in ep["o"]][: ev["n"]]
                b.line(f"{tstr:28s}6{len(names):3d}" + "".join(names[:12]))
                for i in range(12, len(names), 12):
                    b.line(" " * 32 + "".join(names[i : i + 12]))
                for _ in names:
                    for i in range(0, len(ty), 5):
                        ln = "".join(f14_3(1000 * (j + 1)) + "  " for j in range(i, min(i + 5, len(ty))))
                        b.line(ln.rstrip() if trim else ln)
                continue
            b.line(f"{tstr:28s}{ev['flag']:1d}{len(ev['lines']):3d}")
            for c in ev["lines"]:
                b.line(hline(c, "COMMENT", trimh))
        e = dt(ep["t"])
        z = "02d" if st.get("zeros") else "2d"
        s = f" {e.year % 100:02d} {e.month:{z}} {e.day:{z}} {e.hour:{z}} {e.minute:{z}}{secfield(ep['t'], 11, 7)}  {ep.get('flag', 0):1d}{len(ep['o']):3d}"
        assert len(s) == 32, s
        names = []
        for sv, _ in ep["o"]:
            nm = sv
            if st.get("sp7") and sv[1] == "0":
                nm = sv[0] + " " + sv[2]
            if st.get("blankG") and sv[0] == "G":
                nm = " " + nm[1:]
            names.append(nm)
        first = "".join(names[:12])
        if ep.get("clk") is not None:
            first = f"{first:36s}{ep['clk']:>12s}"
        b.line(s + first)
        for i in range(12, len(names), 12):
            b.line(" " * 32 + "".join(names[i : i + 12]))
        spans = []
        for sv, vals in ep["o"]:
            for i in range(0, len(ty), 5):
                ln = ""
                cells = []
                for j in range(i, min(i + 5, len(ty))):
                    v, l, q = vals[j]
                    a = len(ln)
                    ln += (f14_3(v) if v is not None else " " * 14) + (str(l) if l is not None else " ") + (str(q) if q is not None else " ")
                    cells.append((j, a))
                if trim:
                    ln = ln.rstrip()
                elif st.get("pad80"):
                    ln = f"{ln:80s}"
                a0, _ = b.line(ln)
                for j, a in cells:
                    spans.append((sv, j, a0 + a))
        recs.append({"start": start, "end": b.n, "cend": b.n - len(b.nl), "t": ep["t"], "spans": spans})
    data = b.bytes()
    if st.get("nofinalnl") and data.endswith(b.nl.encode()):
        data = data[: -len(b.nl)]
    return data, [{"hend": hend}] + recs


def render_obs3(sp: dict) -> tuple[bytes, list]:
    st = sp["style"]
    b = Buf("\r\n" if st.get("crlf") else "\n")
    trimh = st.get("trimh", False)
    for _ in range(st.get("lead", 0)):
        b.line("")
    sysname = {"M": "M: Mixed", "G": "G: GPS"}.get(sp["sys"], sp["sys"])
    b.line(hline(f"{sp['ver']:>9s}{'':11s}{'OBSERVATION DATA':20s}{sysname:20s}", "RINEX VERSION / TYPE"))
    b.line(hline("simgen              verif               20260101 000000 UTC", "PGM / RUN BY / DATE", trimh))
    for c in st.get("comments", []):
        b.line(hline(c, "COMMENT", trimh))
    b.line(hline(sp.get("marker", "SIM0"), "MARKER NAME", trimh))
    b.line(hline("1234                RX MODEL            1.0", "REC # / TYPE / VERS", trimh))
    if sp.get("pos"):
        b.line(hline("".join(f"{p / 1000:14.4f}" for p in sp["pos"]), "APPROX POSITION XYZ", trimh))
    for k, ty in sp["types"].items():
        for i in range(0, len(ty), 13):
            head = f"{k}  {len(ty):3d}" if i == 0 else f"{'':6s}"
            b.line(hline(head + "".join(f" {x:3s}" for x in ty[i : i + 13]), "SYS / # / OBS TYPES", trimh))
    if sp.get("interval"):
        b.line(hline(f"{sp['interval']:>10s}", "INTERVAL", trimh))
    t0 = sp.get("t0", sp["epochs"][0]["t"] if sp["epochs"] else us(datetime(2010, 3, 5)))
    d = dt(t0)
    b.line(hline(f"{d.year:6d}{d.month:6d}{d.day:6d}{d.hour:6d}{d.minute:6d}{secfield(t0, 13, 7)}{'':5s}{sp.get('tsys', 'GPS'):3s}", "TIME OF FIRST OBS", trimh))
    if sp.get("rcvclk") is not None:
        b.line(hline(f"{sp['rcvclk']:6d}", "RCV CLOCK OFFS APPL", trimh))
    for c, lab in sp.get("hx", []):
        b.line(hline(c, lab, trimh))
    b.line(hline("", "END OF HEADER", trimh))
    hend = b.n
    recs = []
    trim = st.get("trim", False)
    for ep in sp["epochs"]:
        start = b.n
        for ev in ep.get("pre", []):
            e = dt(ep["t"])
            tstr = f"> {e.year:4d} {e.month:02d} {e.day:02d} {e.hour:02d} {e.minute:02d}{secfield(ep['t'], 11, 7)}" if ev.get("timed") else ">"
            if ev["flag"] == 6:  # cycle slips: a record in the format of observations
                names = [sv for sv, _ in ep["o"]][: ev["n"]]
                b.line(f"{tstr:31s}6{len(names):3d}")
                for sv in names:
                    b.line(sv + "".join(f14_3(1000 * (j + 1)) + "  " for j in range(len(sp["types"][sv[0]]))))
                continue
            b.line(f"{tstr:31s}{ev['flag']:1d}{len(ev['lines']):3d}")
            for c in ev["lines"]:
                b.line(hline(c, ev.get("label", "COMMENT"), trimh))
        e = dt(ep["t"])
        s = f"> {e.year:4d} {e.month:02d} {e.day:02d} {e.hour:02d} {e.minute:02d}{secfield(ep['t'], 11, 7)}  {ep.get('flag', 0):1d}{len(ep['o']):3d}"
        assert len(s) == 35, s
        if ep.get("clk") is not None:
            s = f"{s:41s}{ep['clk']:>15s}"
        b.line(s)
        spans = []
        for sv, vals in ep["o"]:
            ln = sv
            if st.get("sp7") and sv[1] == "0":
                ln = sv[0] + " " + sv[2]
            cells = []
            for j, (v, l, q) in enumerate(vals):
                cells.append((j, len(ln)))
                ln += (f14_3(v) if v is not None else " " * 14) + (str(l) if l is not None else " ") + (str(q) if q is not None else " ")
            if trim:
                ln = ln.rstrip()
            a0, _ = b.line(ln)
            for j, a in cells:
                spans.append((sv, j, a0 + a))
        recs.append({"start": start, "end": b.n, "cend": b.n - len(b.nl), "t": ep["t"], "spans": spans})
    data = b.bytes()
    if st.get("nofinalnl") and data.endswith(b.nl.encode()):
        data = data[: -len(b.nl)]
    return data, [{"hend": hend}] + recs


# --------------------------------------------------------------------------
# navigation: independent statement of the RINEX field tables
_KEP = ["Crs", "DeltaN", "M0", "Cuc", "Eccentricity", "Cus", "sqrtA", "Toe", "Cic", "Omega0", "Cis", "Io", "Crc", "omega", "OmegaDot", "IDOT"]
_CLK = ["SVclockBias", "SVclockDrift", "SVclockDriftRate"]
_GLO = ["SVclockBias", "SVrelFreqBias", "MessageFrameTime", "X", "dX", "dX2", "health", "Y", "dY", "dY2", "FreqNum", "Z", "dZ", "dZ2", "AgeOpInfo"]
KM = {"X", "Y", "Z", "dX", "dY", "dZ", "dX2", "dY2", "dZ2"}
NAV2_FIELDS = {
    "G": _CLK + ["IODE"] + _KEP + ["CodesL2", "GPSWeek", "L2Pflag", "SVacc", "health", "TGD", "IODC", "TransTime", "FitIntvl"],
    "R": _GLO,
    "E": _CLK + ["IODnav"] + _KEP + ["DataSrc", "GALWeek", "SISA", "health", "BGDe5a", "BGDe5b", "TransTime"],
}
NAV3_FIELDS = {
    "G": _CLK + ["IODE"] + _KEP + ["CodesL2", "GPSWeek", "L2Pflag", "SVacc", "health", "TGD", "IODC", "TransTime", "FitIntvl", "spare0", "spare1"],
    "C": _CLK + ["AODE"] + _KEP + ["spare0", "BDTWeek", "spare1", "SVacc", "SatH1", "TGD1", "TGD2", "TransTime", "AODC", "spare2", "spare3"],
    "J": _CLK + ["IODE"] + _KEP + ["CodesL2", "GPSWeek", "L2Pflag", "SVacc", "health", "TGD", "IODC", "TransTime", "FitIntvl", "spare0", "spare1"],
    "E": _CLK + ["IODnav"] + _KEP + ["DataSrc", "GALWeek", "spare0", "SISA", "health", "BGDe5a", "BGDe5b", "TransTime", "spare1", "spare2", "spare3"],
    "I": _CLK + ["IODEC"] + _KEP + ["spare0", "BDTWeek", "spare1", "URA", "health", "TGD", "spare2", "TransTime", "spare3", "spare4", "spare5"],
    "R": _GLO,
    "S": ["SVclockBias", "SVrelFreqBias", "MessageFrameTime", "X", "dX", "dX2", "health", "Y", "dY", "dY2", "URA", "Z", "dZ", "dZ2", "IODN"],
}
# how many trailing fields a well-formed record may carry
NAV3_N = {"G": [28, 29, 30, 31], "C": [29, 30, 31], "J": [28, 29, 30, 31], "E": [28, 29, 31], "I": [28, 31], "R": [15], "S": [15]}
# spare cells of BROADCAST ORBIT 5 that some writers leave out altogether, with the lengths that occur
NAV3_OMIT = {"E": [(["spare0"], 27)], "C": [(["spare1"], 28), (["spare0", "spare1"], 27)]}


def nav_fields(sp: dict, sv: str, rec: dict | None = None) -> list[str]:
    """names of the values of a record, in the order the record gives them"""
    if sp["fmt"] == "nav2":
        return NAV2_FIELDS[sv[0]]
    om = rec["om"] if rec and "om" in rec else (sp.get("omit") or {}).get(sv[0], [])
    return [f for f in NAV3_FIELDS[sv[0]] if f not in om]


NAV3_LINES = {"G": 7, "C": 7, "J": 7, "E": 7, "I": 7, "R": 3, "S": 3}


def d19(m: int, e: int, style: str = "D") -> str:
    """mantissa: signed integer of 13 digits d.dddddddddddd (or zero), exponent"""
    s = f"{abs(m):013d}"
    txt = f"{'-' if m < 0 else ' '}{s[0]}.{s[1:]}{style}{'-' if e < 0 else '+'}{abs(e):02d}"
    assert len(txt) == 19
    return txt


def navfloat(m: int, e: int) -> float:
    return float(d19(m, e, "E"))


def render_nav(sp: dict) -> tuple[bytes, list]:
    v3 = sp["fmt"] == "nav3"
    st = sp["style"]
    b = Buf("\r\n" if st.get("crlf") else "\n")
    trimh = st.get("trimh", False)
    E = st.get("exp", "D")
    for _ in range(st.get("lead", 0)):
        b.line("")
    if v3:
        sysname = {"M": "M: MIXED", "G": "G: GPS"}.get(sp["sys"], sp["sys"])
        b.line(hline(f"{sp['ver']:>9s}{'':11s}{'N: GNSS NAV DATA':20s}{sysname:20s}", "RINEX VERSION / TYPE"))
    else:
        nm = {"G": "N: GPS NAV DATA", "R": "GLONASS NAV DATA", "E": "E: GALILEO NAV DATA"}[sp["sys"]]
        b.line(hline(f"{sp['ver']:>9s}{'':11s}{nm:20s}", "RINEX VERSION / TYPE"))
    b.line(hline("simgen              verif               20260101 000000 UTC", "PGM / RUN BY / DATE", trimh))
    for c in st.get("comments", []):
        b.line(hline(c, "COMMENT", trimh))
    for k, co in (sp.get("iono") or {}).items():
        if v3:
            tail = (sp.get("iotail") or {}).get(k, "")  # time mark and satellite
            b.line(hline(f"{k:4s} " + f"{''.join(f'{x:>12s}' for x in co):48s}" + tail, "IONOSPHERIC CORR", trimh))
        else:
            b.line(hline("  " + "".join(f"{x:>12s}" for x in co), {"A": "ION ALPHA", "B": "ION BETA"}[k], trimh))
    if sp.get("leap") is not None:
        b.line(hline(f"{sp['leap']:6d}", "LEAP SECONDS", trimh))
    for k, (a0, a1, T, W, tail) in (sp.get("tcorr") or {}).items():
        b.line(hline(f"{k:4s} {a0:>17s}{a1:>16s}{T:7d}{W:5d}{tail}", "TIME SYSTEM CORR", trimh))
    for c, lab in sp.get("hx", []):
        b.line(hline(c, lab, trimh))
    b.line(hline("", "END OF HEADER", trimh))
    hend = b.n
    recs = []
    for r in sp["recs"]:
        start = b.n
        d = dt(r["t"])
        sv = r["sv"]
        F = nav_fields(sp, sv, r)
        full = NAV3_FIELDS[sv[0]] if v3 else F if sv[0] != "E" else F[:22] + [None] + F[22:]
        txt = [d19(x[0], x[1], E) if x is not None else " " * 19 for x in r["v"]]
        assert len(txt) <= len(F)
        place = {full.index(f): k for k, f in enumerate(F)}  # cell of the full table -> value
        if v3:
            nm = sv if not st.get("sp7") or sv[1] != "0" else sv[0] + " " + sv[2]
            head = f"{nm} {d.year:4d} {d.month:02d} {d.day:02d} {d.hour:02d} {d.minute:02d} {d.second:02d}"
            ind = "    "
            nlines = NAV3_LINES[sv[0]]
        else:
            nm = sv[1:] if not st.get("sp7") or sv[1] != "0" else " " + sv[2]
            head = f"{nm} {d.year % 100:02d} {d.month:2d} {d.day:2d} {d.hour:2d} {d.minute:2d}{secfield(r['t'], 5, 1)}"
            ind = "   "
            nlines = 3 if sv[0] == "R" else 7
        spans = []
        rows = [(head, 0, 3)] + [(ind, 3 + 4 * i, 7 + 4 * i) for i in range(nlines)]
        for pre, i, j in rows:
            s = pre
            cells = []
            gone = False
            for c in range(i, j):
                k = place.get(c)
                if k is None:
                    gone = gone or (v3 and c < len(full))
                    if not gone and not st.get("trim"):
                        s += " " * 19
                elif k < len(txt):
                    cells.append((k, len(s)))
                    s += txt[k]
                elif not st.get("trim"):
                    s += " " * 19
            if gone:
                pass
            elif not st.get("trim"):
                s = f"{s:80.80s}" if st.get("pad80") else s
            else:
                s = s.rstrip()
            a0, _ = b.line(s)
            for k, a in cells:
                spans.append((sv, k, a0 + a))
        recs.append({"start": start, "end": b.n, "cend": b.n - len(b.nl), "lastline": a0, "t": r["t"], "spans": spans})
    data = b.bytes()
    if st.get("nofinalnl") and data.endswith(b.nl.encode()):
        data = data[: -len(b.nl)]
    return data, [{"hend": hend}] + recs


def render_sp3(sp: dict) -> tuple[bytes, list]:
    st = sp["style"]
    b = Buf("\r\n" if st.get("crlf") else "\n")
    ver = sp["ver"]
    svs = sp["svs"]

    def tline(t: int) -> str:
        d = dt(t)
        if st.get("sec60") and t % 60_000_000 == 0:
            d2 = d - timedelta(minutes=1)
            return f"{d2.year:4d} {d2.month:2d} {d2.day:2d} {d2.hour:2d} {d2.minute:2d} 60.00000000"
        return f"{d.year:4d} {d.month:2d} {d.day:2d} {d.hour:2d} {d.minute:2d} {d.second:2d}.{d.microsecond * 100:08d}"

    n = sp.get("nepoch", len(sp["epochs"]))
    t0 = sp["epochs"][0]["t"] if sp["epochs"] else us(datetime(2019, 2, 15))
    hd = sp.get("hd", ["IGS14", "HLM", " SIM"])
    b.line(f"#{ver}{'V' if sp['vel'] else 'P'}{tline(t0)} {sp.get('nep', n):7d} {'ORBIT':5s} {hd[0]:5s} {hd[1]:3s} {hd[2]:4s}")
    b.line("## 2040 432000.00000000   900.00000000 58529 0.0000000000000")
    perline = [svs[i : i + 17] for i in range(0, max(len(svs), 85), 17)]
    for i, g in enumerate(perline):
        c = "".join(f"{s:>3s}" for s in g) + "  0" * (17 - len(g))
        b.line((f"+{len(svs):5d}   " if i == 0 else "+        ") + c)
    for g in perline:
        b.line("++       " + "  2" * len(g) + "  0" * (17 - len(g)))
    b.line("%c G  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc")
    b.line("%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc")
    b.line("%f  1.2500000  1.025000000  0.00000000000  0.000000000000000")
    b.line("%f  0.0000000  0.000000000  0.00000000000  0.000000000000000")
    b.line("%i    0    0    0    0      0      0      0      0         0")
    b.line("%i    0    0    0    0      0      0      0      0         0")
    for c in st.get("comments", ["/* simulated orbit"] * 4):
        b.line(c)
    hend = b.n
    recs = []

    def f14_6(v: int) -> str:
        s = f"{'-' if v < 0 else ''}{abs(v) // 1000000}.{abs(v) % 1000000:06d}"
        assert len(s) <= 14
        return s.rjust(14)

    for ep in sp["epochs"]:
        start = b.n
        b.line("*  " + tline(ep["t"]))
        spans = []
        for i, sv in sorted(enumerate(svs), key=lambda q: zlib.crc32(f"{ep['t']}{q[1]}".encode()) if st.get("order") else q[0]):
            row = ep["p"][i]
            if row is None:  # this satellite has no record at this epoch
                continue
            ln = f"P{sv:>3s}" + "".join(f14_6(v) for v in row)
            if st.get("sdev"):
                ln += "  7  7  7 114"
            a0, _ = b.line(ln)
            for k in range(4):
                spans.append((sv, k, a0 + 4 + 14 * k))
            if st.get("ep"):
                b.line("EP  55   55   55     222  1234567 -1234567  5999999      -30       21 -1230000")
            if sp["vel"]:
                row = ep["v"][i]
                if row is not None:
                    ln = f"V{sv:>3s}" + "".join(f14_6(v) for v in row)
                    a0, _ = b.line(ln)
                    for k in range(4):
                        spans.append((sv, 4 + k, a0 + 4 + 14 * k))
                    if st.get("ep"):
                        b.line("EV  22   22   22     111  1234567  1234567  1234567  1234567  1234567  1234567")
        recs.append({"start": start, "end": b.n, "cend": b.n - len(b.nl), "t": ep["t"], "spans": spans})
    if not st.get("noeof"):
        b.line("EOF")
    return b.bytes(), [{"hend": hend}] + recs


def render(sp: dict) -> tuple[bytes, list]:
    return {"obs2": render_obs2, "obs3": render_obs3, "nav2": render_nav, "nav3": render_nav, "sp3": render_sp3}[sp["fmt"]](sp)


# --------------------------------------------------------------------------
# seeded generation
def _val(r: random.Random, typ: str) -> int:
    k = typ[0]
    x = r.random()
    if x < 0.02:
        return 0
    if k in "CP":
        return r.randrange(19_000_000_000, 26_000_000_000)
    if k == "L":
        if x < 0.1:
            return -r.randrange(1, 99_999_999_999)
        if x < 0.15:
            return r.randrange(1_000_000_000_000, 9_999_999_999_999) // 10
        return r.randrange(80_000_000_000, 140_000_000_000)
    if k == "D":
        return r.randrange(-5_000_000, 5_000_000)
    return r.randrange(10_000, 60_000)


def _obscell(r: random.Random, typ: str, pblank: float, ind: bool, density: float) -> list:
    if r.random() < pblank:
        v = None
        if ind and r.random() < 0.1:
            return [None, r.randrange(0, 8), None]
        return [None, None, None]
    v = _val(r, typ)
    l = q = None
    if ind:
        if typ[0] == "L" and r.random() < density:
            l = r.choice([0, 1, 2, 3, 4, 5, 7])
        if r.random() < density:
            q = r.randrange(0, 10)
    return [v, l, q]


def _times(r: random.Random, n: int, frac: str, gaps: bool, step_ms: int | None = None) -> list[int]:
    y = r.choice([1983, 1989, 1994, 1999, 2000, 2004, 2010, 2018, 2020, 2035])
    base = datetime(y, r.randrange(1, 13), r.randrange(1, 29), r.choice([0, 3, 11, 23]), r.choice([0, 1, 30, 59]), 0)
    t = us(base)
    step = (step_ms if step_ms is not None else r.choice([1000, 5000, 15000, 30000, 30000, 60000])) * 1000
    if frac == "us":
        t += r.choice([1, 10, 500, 537, 999, 1537, 999999, 250001])
        if step_ms is None:
            step = r.choice([50, 100, 200, 1000, 30000]) * 1000 + r.choice([0, 0, 1, 250, 999])
    elif frac == "ms":
        t += r.choice([1, 2, 5, 7, 8, 9, 10, 50, 100, 120, 129, 190, 249, 500, 570, 580, 998, 999]) * 1000
        if step_ms is None:
            step = r.choice([50, 100, 200, 1000, 30000]) * 1000
    out = []
    for _ in range(n):
        out.append(t)
        t += step
        if gaps and r.random() < 0.2:
            t += step * r.randrange(1, 9)
        if frac == "drift" and r.random() < 0.5:
            t += r.choice([-1, 1, 1]) * 1000 if t % 1000000 == 0 else 0
    return out


def _extra_header(r: random.Random, v3: bool, ts: list, types, pool: list) -> list:
    """further header lines the formats know, several of which repeat their label"""
    end = ts[-1] if r.random() < 0.6 else r.choice(ts)  # not brought up to date when files are spliced or grow
    d = dt(end)
    last = [[f"{d.year:6d}{d.month:6d}{d.day:6d}{d.hour:6d}{d.minute:6d}{secfield(end, 13, 7)}{'':5s}GPS", "TIME OF LAST OBS"]]
    groups = [
        last,
        [["OBSERVER            AGENCY", "OBSERVER / AGENCY"]],
        [["5678                ANT MODEL           NONE", "ANT # / TYPE"]],
        [[f"{1.5:14.4f}{0:14.4f}{0:14.4f}", "ANTENNA: DELTA H/E/N"]],
        [["    18", "LEAP SECONDS"]],
        [[f"{len(pool):6d}", "# OF SATELLITES"]],
        [["12345M001", "MARKER NUMBER"]],
    ]
    if v3:
        groups.append([["GEODETIC", "MARKER TYPE"]])
        groups.append([["DBHZ", "SIGNAL STRENGTH UNIT"]])
        for k, ty in types.items():
            groups.append([[f"{k} {x} {0.25:8.5f}", "SYS / PHASE SHIFT"] for x in ty if x[0] == "L"] or [[f"{k}", "SYS / PHASE SHIFT"]])
        glo = [x for x in pool if x[0] == "R"] or ["R01"]
        rows = []
        for i in range(0, len(glo), 8):
            rows.append([(f"{len(glo):3d} " if i == 0 else "    ") + "".join(f"{x} {int(x[1:]) % 7 - 3:2d} " for x in glo[i : i + 8]), "GLONASS SLOT / FRQ #"])
        groups.append(rows)
        groups.append([[" C1C    0.000 C1P    0.000 C2C    0.000 C2P    0.000", "GLONASS COD/PHS/BIS"]])
        groups.append([[f"   {x}" + f"{7:6d}" * min(len(types[x[0]]), 9), "PRN / # OF OBS"] for x in pool[:20]])
    else:
        groups.append([["     1     2     " + "".join(f"{x:>6s}" for x in pool[:7]), "WAVELENGTH FACT L1/2"]])
        groups.append([[f"   {x}" + f"{7:6d}" * min(len(types), 9), "PRN / # OF OBS"] for x in pool[:20]])
    out = []
    for g in r.sample(groups, r.randrange(1, len(groups) + 1)):
        out += g
    return out


def gen_obs(r: random.Random, fmt: str, *, nep=None, gaps=None, maxsv=None, simple=False, events=True, long=False) -> dict:
    v3 = fmt == "obs3"
    st: dict = {}
    sw = lambda p: (not simple) and r.random() < p  # noqa: E731
    st["trim"] = sw(0.5)
    st["crlf"] = sw(0.2)
    st["trimh"] = sw(0.3)
    st["sp7"] = sw(0.2)
    st["zeros"] = sw(0.3)
    st["pad80"] = sw(0.3)
    st["lead"] = r.randrange(1, 4) if sw(0.05) else 0
    st["nofinalnl"] = sw(0.2)
    com = []
    if sw(0.3):
        com = [f"comment {i} " + "x" * r.randrange(0, 40) for i in range(r.randrange(1, 4))]
    if sw(0.2):
        com.append("station caf\xe9 \xb0N " + "y" * r.randrange(0, 10))
    if sw(0.1):
        com.append("G  12 C1C L1C not a header > 2010")
    st["comments"] = com
    n = nep if nep is not None else r.choice([1, 2, 2, 3, 4, 5, 6, 8, 12])
    long = long and sw(0.012)
    if long:
        n = r.choice([60, 100, 150]) if v3 else r.choice([60, 130, 260, 400])
    gaps = sw(0.3) if gaps is None else gaps
    frac = "ms" if sw(0.25) else ("drift" if sw(0.1) and gaps else "us" if sw(0.15) else "")
    ts = _times(r, n, frac, gaps)
    mixed = r.random() < 0.6
    sp: dict = {"fmt": fmt, "style": st}
    if v3:
        sp["ver"] = r.choice(["3.01", "3.02", "3.03", "3.04"])
        syss = r.sample(["G", "R", "E", "C", "J", "S", "I"], r.randrange(2, 6)) if mixed else [r.choice(["G", "G", "R", "E", "C", "J", "S", "I"])]
        types = {}
        for k in syss:
            pool = OBS3_TYPES[k]
            m = r.choice([1, 2, 3, 4, 5, 13, 14, 16]) if not sw(0.15) else len(pool)
            types[k] = r.sample(pool, min(m, len(pool)))
        sp["types"] = types
    else:
        sp["ver"] = r.choice(["2.10", "2.11", "2.12", "2"])
        syss = r.sample(["G", "R", "E", "C", "J", "S"], r.randrange(2, 5)) if mixed else [r.choice(["G", "G", "R", "E", "C", "J", "S"])]
        if mixed and "G" not in syss and r.random() < 0.5:
            syss[0] = "G"
        m = r.choice([1, 2, 3, 4, 5, 5, 6, 7, 9, 10, 11, 14, 18, 19, 26])
        sp["types"] = r.sample(OBS2_TYPES, m)
        if syss == ["G"]:
            st["blankG"] = sw(0.15)
    sp["sys"] = "M" if mixed else syss[0]
    sp["tsys"] = r.choice(["GPS", "GLO", "GAL"]) if mixed else r.choice(["GPS", "GPS", "", "", "GLO", "GAL", "QZS", "BDT", "IRN"])
    if r.random() < 0.6:
        sp["interval"] = f"{r.choice([1, 5, 15, 30, 60])}.000" if r.random() < 0.85 else r.choice(["0.050", "0.100", "0.200", "0.500", "2.500", "900.000"])
    if r.random() < 0.7:
        sp["pos"] = [r.randrange(-6_000_000_000, 6_000_000_000) for _ in range(2)] + [r.randrange(-6_300_000_000, 6_300_000_000)]
        if sum(p * p for p in sp["pos"]) < 25 * 10**18:
            sp["pos"] = [4075539173, 931735497, 4801629449]
    pool = []
    for k in syss:
        ids = r.sample(range(1, NSV[k] + 1), min(NSV[k], r.choice([1, 2, 4, 6, 10])))
        pool += [f"{k}{i:02d}" for i in ids]
    if maxsv:
        pool = pool[:maxsv]
    full = False
    if not simple and r.random() < 0.13:
        pool = [f"{k}{i:02d}" for k in syss for i in range(1, NSV[k] + 1)][: r.choice([12, 13, 24, 25, 36, 37, 48, 60])]
    elif not simple and maxsv is None and r.random() < 0.05:
        pool = [f"{k}{i:02d}" for k in syss for i in range(1, NSV[k] + 1)][: r.choice([96, 99, 100, 101, 108, 109, 120])]
        full = True
        n = min(n, 2)
        ts = ts[:n]
    if long and not full:
        pool = r.sample(pool, min(len(pool), 3))
    pblank = r.choice([0, 0.05, 0.3, 0.6]) if not simple else 0
    ind = r.random() < 0.6
    dens = r.choice([0.3, 0.9])
    eps = []
    for t in ts:
        here = [s for s in pool if simple or full or r.random() < r.choice([0.4, 0.8, 1.0])] or pool[:1]
        if not simple and r.random() < 0.4:
            r.shuffle(here)
        o = []
        for s in here:
            ty = sp["types"][s[0]] if v3 else sp["types"]
            row = [_obscell(r, k, pblank, ind, dens) for k in ty]
            if not simple and r.random() < 0.05:
                row = [[None, None, None] for _ in ty]
            o.append([s, row])
        ep = {"t": t, "o": o}
        if sw(0.05):
            ep["flag"] = 1
        if sw(0.08):
            c = r.randrange(-999, 999)
            ep["clk"] = f"{c / 1e6:.12f}" if v3 else f"{c / 1e6:.9f}"
        if events and sw(0.06):
            fl = r.choice([2, 3, 4, 4, 4, 5, 6])
            ln = r.choice([["antenna moved"], ["EVENT here", "second line"], ["Gnew occupation"], []])
            ep["pre"] = [{"flag": fl, "lines": ln, "timed": fl > 4 or r.random() < 0.5}]
            if fl == 6:
                ep["pre"][0]["n"] = r.randrange(1, 30)
            if v3 and fl == 4 and r.random() < 0.3:
                ep["pre"][0]["lines"] = [f"{syss[0]}  {1:3d} C1C"]
        eps.append(ep)
    sp["epochs"] = eps
    if sw(0.15) and eps:
        sp["hx"] = _extra_header(r, v3, ts, sp["types"], pool)
    if v3 and r.random() < 0.2:
        sp["rcvclk"] = r.randrange(0, 2)
    if sum(len(e["o"]) for e in eps) > (1200 if long else 500):
        sp["epochs"] = eps[:4]
    return sp


def _navval(r: random.Random) -> list:
    x = r.random()
    if x < 0.06:
        return [0, 0]
    m = r.randrange(10**12, 10**13)
    if r.random() < 0.45:
        m = -m
    return [m, r.choice([0, 0, 1, 2, 3, 4, -1, -2, -3, -5, -7, -9, -10, -12])]


def _coef(r: random.Random) -> str:
    return f"{'-' if r.random() < 0.5 else ' '}{r.randrange(1000, 9999) / 1000:.4f}{r.choice('DE')}{r.choice(['-08', '-07', '+04', '+05'])}"


def gen_nav(r: random.Random, fmt: str, *, nrec=None, simple=False, dup=None, monotonic=None, long=False) -> dict:
    v3 = fmt == "nav3"
    sw = lambda p: (not simple) and r.random() < p  # noqa: E731
    st: dict = {"trim": sw(0.4), "crlf": sw(0.2), "trimh": sw(0.3), "sp7": sw(0.3), "pad80": sw(0.3), "nofinalnl": sw(0.2), "exp": "E" if sw(0.2) else "D"}
    st["comments"] = ["caf\xe9 \xb0"] if sw(0.2) else []
    sp: dict = {"fmt": fmt, "style": st}
    if v3:
        sp["ver"] = r.choice(["3.01", "3.02", "3.03", "3.04"])
        syss = r.sample(["G", "R", "E", "C", "J", "S", "I"], r.randrange(2, 5)) if r.random() < 0.6 else [r.choice("GRECJSI")]
        sp["sys"] = "M" if len(syss) > 1 else syss[0]
    else:
        sp["ver"] = r.choice(["2.10", "2.11", "2"])
        syss = [r.choice(["G", "G", "R", "E"])]
        sp["sys"] = syss[0]
    N = {k: r.choice(NAV3_N[k]) if v3 else len(NAV2_FIELDS[k]) for k in syss}
    if not v3 and sp["sys"] == "G" and sw(0.2):
        N["G"] = 28
    if v3:
        om = {}
        for k in syss:
            if k in NAV3_OMIT and sw(0.3):
                om[k], N[k] = r.choice(NAV3_OMIT[k])
        if om:
            sp["omit"] = om
    blank = v3 and not st["trim"] and sw(0.2)  # middle spares left blank

    gaps = sw(0.15)  # values left blank anywhere, also at the (trimmed) end of a line
    mix = v3 and sw(0.25)  # records of several writers: every record has its own layout

    def row(t: int, sv: str) -> dict:
        k = sv[0]
        rec: dict = {"t": t, "sv": sv}
        nf = N[k]
        if mix:
            rec["om"] = []
            nf = r.choice(NAV3_N[k])
            if k in NAV3_OMIT and r.random() < 0.4:
                rec["om"], nf = r.choice(NAV3_OMIT[k])
        v = [_navval(r) for _ in range(nf)]
        if blank:
            for i, f in enumerate(nav_fields(sp, sv, rec)[:23]):
                if f.startswith("spare"):
                    v[i] = None
        if gaps:
            for i in range(3, nf - 1):
                if r.random() < 0.1 and not (k in "CE" and 19 <= i <= 22):
                    v[i] = None
        rec["v"] = v
        return rec

    n = nrec if nrec is not None else r.choice([1, 2, 3, 5, 8, 12, 20])
    if long and sw(0.015):
        n = r.choice([60, 150])
    base = datetime(r.choice([1999, 2004, 2010, 2018, 2020] if v3 else [1985, 1993, 1999, 2004, 2010, 2018, 2020, 2045]), r.randrange(1, 13), r.randrange(1, 29), r.choice([0, 2, 22]), 0, 0)
    pool = []
    for k in syss:
        pool += [f"{k}{i:02d}" for i in r.sample(range(1, NSV[k] + 1), min(NSV[k], r.choice([1, 2, 3, 6])))]
    hours = sorted(r.sample(range(0, 2000, 10), r.randrange(1, 9)))  # minutes
    secs = {m: (r.choice([0, 16, 44, 59]) if sw(0.2) else 0) for m in hours}
    recs = []
    seen = set()
    dup = (v3 and sw(0.3)) if dup is None else dup
    for _ in range(n):
        sv = r.choice(pool)
        m = r.choice(hours)
        t = us(base + timedelta(minutes=m, seconds=secs[m]))
        if (sv, t) in seen and not (dup and v3):
            continue
        seen.add((sv, t))
        recs.append(row(t, sv))
        if dup and r.random() < 0.3:
            for _ in range(r.randrange(1, 3)):
                recs.append(copy.deepcopy(recs[-1]) if r.random() < 0.3 else row(t, sv))
    mono = (r.random() < 0.6) if monotonic is None else monotonic
    if mono:
        recs.sort(key=lambda q: q["t"])
    elif r.random() < 0.5:
        recs.sort(key=lambda q: q["sv"])
    sp["recs"] = recs
    if r.random() < 0.5:
        if v3:
            io: dict = {}
            for k in syss:
                if k == "E":
                    io["GAL"] = [_coef(r) for _ in range(3)]
                elif k in "GCJI":
                    p = {"G": "GPS", "C": "BDS", "J": "QZS", "I": "IRN"}[k]
                    io[p + "A"] = [_coef(r) for _ in range(4)]
                    io[p + "B"] = [_coef(r) for _ in range(4)]
            names = list(io)
            if sw(0.5):
                r.shuffle(names)
            sp["iono"] = {k: io[k] for k in names}
        elif sp["sys"] == "G":
            sp["iono"] = {"A": [_coef(r) for _ in range(4)], "B": [_coef(r) for _ in range(4)]}
    if r.random() < 0.3:
        sp["leap"] = 18
    if sw(0.3):
        num = lambda n: f"{r.choice([' ', '-'])}{r.choice('123456789')}.{r.randrange(10**n):0{n}d}{r.choice('DDE')}{r.choice(['-', '-', '+'])}{r.randrange(20):02d}"  # noqa: E731
        if v3:
            kinds = ["GPUT", "GLUT", "GAUT", "BDUT", "QZUT", "IRUT", "SBUT", "GLGP", "GPGA", "QZGP"]
            sp["tcorr"] = {k: [num(10), num(9), r.choice([0, 61440, 604784, 147456]), r.choice([0, 1, 512, 2191]), r.choice(["", "", "  S 3 5", "  E01  3"])] for k in r.sample(kinds, r.randrange(1, 5))}
            if sp.get("iono"):
                sp["iotail"] = {k: r.choice(["", " A", " X 12", "   24"]) for k in sp["iono"] if k != "GAL"}
        elif sp["sys"] == "G":
            sp["hx"] = [[f"   {num(12)}{num(12)}{319488:9d}{1025:9d}", "DELTA-UTC: A0,A1,T,W"]]
        else:
            sp["hx"] = [[f"{2017:6d}{1:6d}{2:6d}   {num(12)}", "CORR TO SYSTEM TIME"]]
    return sp


def gen_sp3(r: random.Random, *, nep=None, simple=False, long=False) -> dict:
    sw = lambda p: (not simple) and r.random() < p  # noqa: E731
    ver = r.choice(["a", "c", "c", "d"])
    nsv = r.choice([1, 2, 5, 16, 17, 18, 32, 34, 35, 51]) if ver != "d" else r.choice([3, 17, 40, 85, 86, 102, 110])
    if simple:
        nsv = min(nsv, 8)
    if ver == "a":
        svs = [str(i) for i in range(1, min(nsv, 32) + 1)]
    else:
        allsv = [f"{k}{i:02d}" for k in "GRECJ" for i in range(1, {"G": 32, "R": 24, "E": 30, "C": 35, "J": 7}[k] + 1)]
        svs = sorted(r.sample(allsv, nsv), key=lambda s: ("GRECJ".index(s[0]), s))
        if sw(0.3):
            r.shuffle(svs)
    st = {"crlf": sw(0.15), "sdev": sw(0.3), "noeof": sw(0.2), "sec60": sw(0.1), "ep": sw(0.15)}
    if sw(0.3):
        st["comments"] = ["/* simulated orbit"] * r.randrange(0, 9)
    vel = r.random() < 0.4
    n = nep if nep is not None else r.choice([1, 2, 3, 5, 8])
    if long and sw(0.02) and len(svs) <= 5:
        n = r.choice([97, 289])
    if len(svs) > 60:
        n = min(n, 3)
    t = us(datetime(2019, r.randrange(1, 13), r.randrange(1, 29), r.choice([0, 12, 23]), r.choice([0, 45, 59]), 0))
    step = r.choice([1, 30, 300, 900]) * 1_000_000
    if sw(0.15):
        t += r.choice([500000, 123456, 1, 290000, 570000, 999999, 100])
        if sw(0.5):
            step = r.choice([100000, 250000, 10000, 290000])
    eps = []
    part = sw(0.2)
    st["order"] = sw(0.15)
    for _ in range(n):
        p, v = [], []
        for _s in svs:
            bad = r.random() < 0.05
            if part and r.random() < 0.2:
                p.append(None)
                v.append(None)
                continue
            w = 30000_000000 if r.random() < 0.9 else 999999_999999  # as wide as the field
            p.append([0, 0, 0] if bad else [r.randrange(-w, w) for _ in range(3)])
            p[-1].append(999999_999999 if r.random() < 0.1 else r.randrange(-900_000000, 900_000000) if r.random() < 0.9 else -r.randrange(999999_999999))
            if vel:
                v.append(None if sw(0.05) else [r.randrange(-40000_000000, 40000_000000) for _ in range(3)] + [r.randrange(-9000_000000, 9000_000000)])
        eps.append({"t": t, "p": p, "v": v})
        t += step
    sp = {"fmt": "sp3", "ver": ver, "svs": svs, "vel": vel, "epochs": eps, "style": st}
    sp["hd"] = [r.choice(["IGS14", "WGS84", "ITR97", "IGb08"]), r.choice(["HLM", "FIT", "EXT", "BCT"]), r.choice([" SIM", "NGS", "AIUB", " IGS", "ESOC"])]
    if sw(0.05):  # some writers announce another number of epochs
        sp["nep"] = len(eps) + r.choice([-1, 1, 5])
    return sp


def gen(r: random.Random, fmt: str, **kw) -> dict:
    if fmt in ("obs2", "obs3"):
        return gen_obs(r, fmt, **kw)
    if fmt in ("nav2", "nav3"):
        return gen_nav(r, fmt, **kw)
    return gen_sp3(r, **kw)


def suffix(sp: dict) -> str:
    return {"obs2": ".18o", "obs3": "_MO.rnx", "nav2": {"G": ".18n", "R": ".18g", "E": ".18e"}.get(sp.get("sys"), ".18n"), "nav3": "_MN.rnx", "sp3": ".sp3"}[sp["fmt"]]
