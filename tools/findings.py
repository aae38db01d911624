#!/usr/bin/env python3
"""Writes known_findings.jsonl: the repaired defects, from the "fix:" commits in /repo, and the open ones."""
import json
import os
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# commit -> properties whose check reports the defect again if it returns
FIXED = """
54cc54d P25|0be7d34 P25|f2f917a P25,P09|16b8aef P25,P24|0b223b0 P25,P24|a80219b P03|7bfc2ac P02|a5484dc P02,P24|bd5019e P02,P01|d74a7ad P02,P05
0b29051 P02|0b18bda P02|fb81e28 P05|f0a6b91 P06|23f62e2 P23,P08|dfb1581 P07|a475f70 P07|44bf1f9 P10,P24|7a20169 P10|5012acd P23,P11|2f0d1f0 P16
63d2d4d P16|7755dd6 P16|1f1ea99 P13,P24|31182c0 P24|bb6c9b4 P14|a199ff9 P14|5136cfb P15,P24|79eb0c7 P15|b137c39 P15|b59ee33 P15|0340b59 P17|40eafa2 P17
b2655cc P19|1c04e35 P19,P24|cfcb883 P19,P24|9ea1bc1 P19|e54cd74 P20,P24|a07e711 P20|b98b7b9 P22|0e9eb30 P22,P24|861e017 P22,P24|9567402 P22,P24|0395a64 P23
a022b90 P24|cf5386a P24|280d9db P24|e82551a P24|c623ea5 P24|0b57f0a P24|b12670b P24|2fab6a6 P24|c558028 P24|afca4d9 P24|6386a7b P24|9ee3f7b P24|9b57c5f P24
e2bdb9b P24|73109a5 P24|ff7eb58 P24|d580d1c P24|4d05d4d P24|2a18f17 C05|71112d4 C05|2bb2670 C05|50e3baf C05|1ead18c C05|d35a270 C05
993403b C04|e52ffa0 C04|17770ae C04|a383394 C04|bd30f3b C02|b0483e4 C02|0b55a05 C02|a187f9f C02
e75133b C01|f525c8d C01|700b9be C01|12de27b C01|6a9f3f9 C01|1308490 C01|de0015f C01|a65ddf9 C01
524aec6 C03|00ef372 C03|69c53fb C03|a2e3ebe C03|560e871 C03|780f633 C03|dd2b45f C03|bd638ee C03|f9a5c9c C03|94af102 C03|e567204 C03|cfc569d C03|3f754ac C03|797b8db C03|d40627b C03
b236544 C06|1cd0f5a C06|79e02ee C06|708e802 C06|a0d2be1 C06|e53de43 C06
6d5dc4d C03|b8f1984 C03|2d4b45b C03|4e3abd1 C03|c050876 C03
c6e2b57 C03|1a76868 C03|e243b97 C03|eff8efe C03|4b354c0 C03|a825f66 C03|bbe1dde C03
"""
# defects that are recorded and not repaired: {"property", "sub", "what"}
OPEN = []

if __name__ == "__main__":
    extra = os.path.join(VERIF, "tools", "findings_extra.txt")
    text = FIXED + (open(extra).read() if os.path.exists(extra) else "")
    with open(os.path.join(VERIF, "known_findings.jsonl"), "w") as f:
        for item in text.replace("\n", "|").split("|"):
            if not item.strip():
                continue
            commit, props = item.split()
            what = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%s", commit], text=True).strip()
            assert what.startswith("fix: "), item
            for p in props.split(","):
                f.write("fixed: property=%s %s %s\n" % (p, commit, what[5:]))
        for o in OPEN:
            f.write(json.dumps(dict(o, status="open")) + "\n")
