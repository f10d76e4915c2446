"""Writes known_findings.txt (run by hand; the checks only read that file)."""
import os
import subprocess
PROP = {'78db1af': 'C07', 'f5e97ec': 'C03', 'ab73b1d': 'C14', 'd253306': 'C03', 'bbdd8c9': 'C05', 'f3fc9fb': 'C04', 'b1467ec': 'C09',
        'adf6115': 'C04', '0e4fc48': 'C02', '61a5e50': 'C02', 'ba14f14': 'C02', '468f092': 'C06', '430c5a9': 'C06', '7f10b26': 'C02',
        '57cc70b': 'C02', 'a5e3565': 'C05', 'ae94728': 'C05', 'e20c3f1': 'C06', 'ae8d90c': 'C10', '4b5dd50': 'C11', 'be952d4': 'C12',
        '3f15aae': 'C16', 'b6a7460': 'C08', '7c81d24': 'C22', '540c150': 'C22', 'c8b6789': 'C12',
        'e231919': 'C36'}   # others: C01
FIND = [
    ("C01", "field:UaPdu.shaftRPMs", "decoding a UA PDU with shafts calls the undefined name null(): the record class does not exist (the class is marked UNFINISHED)"),
    ("C01", "field:UaPdu.apaData", "decoding a UA PDU with additional passive activity data calls the undefined name null()"),
    ("C01", "field:UaPdu.emitterSystems", "decoding a UA PDU with emitter systems calls the undefined name null()"),
    ("C03", "undefined-name:UaPdu:null", "UaPdu.parse calls null(), a NameError as soon as one of its three counts is not zero"),
    ("C06", "range:PointObjectStatePdu.objectAppearance", "documented as a 32-bit structure but written and read as a 64-bit float; the standard has a 32-bit "
     "specific and a 16-bit general appearance here, so a repair changes the meaning of the attribute"),
    ("C37", "runs:dis_receiver.recv-of-an-unknown-type.none-attr", "createPdu returns None for a type it does not know and the receiver then reads pdu.pduType: it dies on "
     "the first PDU of another type (examples are not edited here)"),
    ("C37", "label:dis_receiver.yaw", "ecef2llarpy returns roll, pitch, yaw in this order; the receiver prints the fourth value, the roll, as Yaw"),
    ("C37", "label:dis_receiver.roll", "and the sixth, the yaw, as Roll"),
]
out = ["# Defects of open-dis-python found with these checks.",
       "# 'finding:' lines are genuine, unrepaired defects: the check prints KNOWN-FINDING for that key; no other key is affected.",
       "# 'fixed:' lines record repairs committed in /repo; they suppress nothing.", ""]
out += [f"finding: property={p} key={k} -- {t}" for p, k, t in FIND] + [""]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--abbrev=7", "--format=%h %s"], capture_output=True, text=True).stdout
for ln in log.splitlines():
    h, _, t = ln.partition(" ")
    if t.startswith("fix: ") and h != 'caa737a':      # reverted: it changed an example
        out.append(f"fixed: property={PROP.get(h, 'C01')} {h} {t[5:]}")
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt"), "w") as f:
    f.write("\n".join(out) + "\n")
