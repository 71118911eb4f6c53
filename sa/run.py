"""Check runner:  python3 -m sa.run <PROPERTY> [--tier quick|thorough]

exit 0: no violation that is not a listed finding;  exit 1: VIOLATION line(s);  exit 2: the analysis could not run at all."""
import importlib, json, os, sys, time, collections, traceback
from .model import Program
from . import sweep

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith("{"):     # comments and "fixed:" records suppress nothing
                continue
            d = json.loads(line)
            if d.get("property") == pid and d.get("status") == "open":
                out[d["key"]] = d
    return out


def main(argv):
    pid = argv[0]
    tier = "thorough" if "--tier" in argv and argv[argv.index("--tier") + 1] == "thorough" else os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    t0 = time.time()
    mod = "sa.props." + pid.lower()
    m = importlib.import_module(mod)
    try:
        prog = Program(sweep.REPO)
        jobs = m.jobs(prog, tier)
    except Exception:
        traceback.print_exc()
        print("analysis could not start: the source tree could not be read")
        return 2
    findings, crashes, counts, undecided, funcs = {}, [], collections.Counter(), {}, set()
    notes = []
    for r in sweep.parallel(mod, jobs):
        if "crash" in r:
            crashes.append((r["job"], r["crash"]))
            continue
        for f in r.get("findings", ()):
            (findings if f.severity == "violation" else undecided).setdefault(f.key, f)
        counts.update(r.get("counts", {}))
        funcs |= set(r.get("funcs", ()))
        notes += r.get("notes", ())
    if hasattr(m, "post"):
        for f in m.post(prog, tier, counts):
            (findings if f.severity == "violation" else undecided).setdefault(f.key, f)
    minimum = getattr(m, "MIN", {})
    broken = [k for k, v in minimum.items() if counts.get(k, 0) < v]
    kn = known(pid)
    listed = {k: f for k, f in findings.items() if k in kn}
    new = {k: f for k, f in findings.items() if k not in kn}
    os.makedirs(EVID, exist_ok=True)
    print(f"[{pid}] {m.TITLE}")
    print(f"[{pid}] rule: {m.RULE}")
    print(f"[{pid}] analysed: " + ", ".join(f"{k}={v}" for k, v in sorted(counts.items())) + f", functions interpreted={len(funcs)}")
    if undecided:
        print(f"[{pid}] undecided obligations (not reported as violations): {len(undecided)}")
        for f in list(undecided.values())[:40]:
            print(f"   ? {f.entry}: {f.where} {f.msg}")
    for j, c in crashes[:5]:
        print(f"[{pid}] not analysed {j}: {c.strip().splitlines()[-1]}")
    for k, f in listed.items():
        print(f"KNOWN-FINDING: property={pid} {kn[k].get('what', f.msg)} [{f.where}]")
    rep = os.path.join(EVID, f"{pid}.violations.txt")
    if new:
        with open(rep, "w") as fh:
            for f in new.values():
                fh.write(f"{f.rule}\n  at {f.where} in {f.func}\n  construct: {f.construct}\n  {f.msg}\n  entry point: {f.entry}\n"
                         f"  call chain: {' > '.join(f.chain)}\n\n")
        for f in new.values():
            print(f"  violation: {f.where} in {f.func}: {f.msg}   construct: {f.construct}   entry: {f.entry}")
            if f.chain:
                print(f"     via {' > '.join(f.chain)}")
            if os.environ.get("SA_KEYS"):
                print("     key " + f.key)
        print(f"VIOLATION property={pid} replay={rep}")
    elif os.path.exists(rep):
        os.remove(rep)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": getattr(m, "LEVEL", "other"),
        "coverage": {"explanation": m.RULE, "counts": dict(counts), "functions_interpreted": len(funcs),
                     "functions": sorted(funcs)[:400], "jobs": len(jobs), "not_analysed": [str(j) for j, _ in crashes],
                     "undecided": [f"{f.entry}: {f.where}: {f.msg}" for f in undecided.values()][:200],
                     "known_findings": sorted(listed), "notes": notes[:50]},
        "wall_s": round(time.time() - t0, 2),
        "assumptions": getattr(m, "ASSUME", []),
        "violations": [f"{f.where} {f.func}: {f.msg} [{f.construct}]" for f in new.values()],
    }
    with open(os.path.join(EVID, f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print(f"[{pid}] wall {ev['wall_s']} s; new violations: {len(new)}; listed: {len(listed)}")
    if new:
        return 1
    if broken:
        print(f"[{pid}] analysis broken: too few obligations: {broken}")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
