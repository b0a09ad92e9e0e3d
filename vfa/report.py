"""Obligations, evidence and verdict of one check."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid, tier="quick", root=HERE):
        self.pid, self.tier, self.root = pid, tier, root
        self.rule = ""
        self.obligations = []    # (verdict, what, where, detail)
        self.analysed = {}       # root -> counters
        self.notes = []
        self.t0 = time.time()

    # -- recording

    def roots(self, name, interp):
        self.analysed[name] = {"events": len(interp.events), "functions_inlined": len(interp.inlined), "statements": interp.steps}
        if interp.truncated:
            self.notes.append(f"{name}: analysis budget exhausted, later obligations undecided")

    def ob(self, verdict, what, where="", detail=""):
        """verdict: True holds, False violated, None undecided."""
        verdict = None if verdict is None else bool(verdict)
        self.obligations.append((verdict, what, str(where), str(detail)))
        return verdict

    def ok(self, what, where="", detail=""):
        return self.ob(True, what, where, detail)

    def bad(self, what, where="", detail=""):
        return self.ob(False, what, where, detail)

    def und(self, what, where="", detail=""):
        return self.ob(None, what, where, detail)

    # -- known findings

    def known(self):
        out = []
        p = os.path.join(self.root, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p, encoding="utf-8"):
                line = line.strip()
                if line.startswith("finding:") and f"property={self.pid} " in line:
                    out.append(line.split(f"property={self.pid} ", 1)[1])
        return out

    # -- verdict

    def finish(self):
        seen, viol = set(), []
        for v, what, where, detail in self.obligations:
            if v is False and (what, where) not in seen:
                seen.add((what, where))
                viol.append((what, where, detail))
        known = self.known()
        new = []
        for what, where, detail in viol:
            text = f"{what} at {where}"
            hit = next((k for k in known if k.split(" :: ")[0] in text), None)
            if hit is not None:
                print(f"KNOWN-FINDING: property={self.pid} {text}")
            else:
                new.append((what, where, detail))
        held = [o for o in self.obligations if o[0] is True]
        und = [o for o in self.obligations if o[0] is None]
        evdir = os.environ.get("VERIF_EVIDENCE_DIR") or os.path.join(self.root, "evidence")
        os.makedirs(evdir, exist_ok=True)
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": self.rule,
                "obligations": len(self.obligations),
                "discharged": len(held),
                "undecided": [{"what": o[1], "where": o[2], "detail": o[3][:300]} for o in und][:40],
                "violations": [{"what": a, "where": b, "detail": c[:600]} for a, b, c in new],
                "analysed_roots": self.analysed,
                "sites": sorted({o[2] for o in self.obligations if o[2]})[:80],
                "samples": [{"holds": o[1], "where": o[2]} for o in held[:25]],
                "notes": self.notes,
            },
            "wall_s": round(time.time() - self.t0, 3),
        }
        with open(os.path.join(evdir, f"{self.pid}.json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1)
        print(f"{self.pid}: {len(self.obligations)} obligations, {len(held)} hold, {len(und)} undecided, {len(new)} violated ({ev['wall_s']}s)")
        for o in und:
            print(f"  undecided: {o[1]} [{o[2]}] {o[3][:200]}")
        if new:
            rp = os.path.join(evdir, f"{self.pid}.violation.txt")
            with open(rp, "w", encoding="utf-8") as f:
                for what, where, detail in new:
                    f.write(f"{what}\n  at {where}\n  {detail}\n\n")
            for what, where, detail in new:
                print(f"  violated: {what}\n    at {where}\n    {detail[:900]}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        return 0
