"""Writes MANIFEST.json from the registry of checks."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(here, "harness"), os.path.join(here, "tools")]
import registry
from mkprops import PROPS

NOTE = (
    "TLC decides every step of every history that is recorded from the real code "
    "against the specification (spec/*.tla); histories are random programs and "
    "schedules (seeded){models}. Assumes that the recording renderer and driver "
    "report what the code does; bounds in DESIGN.md."
)
# What is exhaustive, besides the random histories
RECON = "lists of children (Recon)"
MODELS = {
    "C01": [RECON, "ways to use components (Parts)"], "C02": [RECON, "components without elements (Parts)"],
    "C03": [RECON, "props (Parts)"], "C04": [RECON, "props (Parts)"], "C05": [RECON, "components without elements (Parts)"],
    "C06": [RECON, "moments of changes (Sched)", "components without elements (Parts)"],
    "C07": ["moments of changes (Sched)", RECON], "C08": ["moments of changes (Sched)", RECON],
    "C09": ["reads of state (Parts)"], "C10": ["moments of changes (Sched)", RECON],
    "C11": ["props (Parts)"], "C12": ["chains of providers (Parts)"], "C13": ["props (Parts)"],
    "C14": [RECON, "slots (Parts)"], "C15": [RECON, "components without elements (Parts)"],
    "C16": ["templates (Parts)"], "C17": ["configurations of names (Lookup)"],
    "C19": [RECON, "calls of the renderer (Calls)"], "C20": ["calls of the renderer (Calls)"],
    "C21": ["calls of the renderer (Calls)"],
}
ALL = {
    "C18": "TLC generates all pairs of the handlers of the model (Equiv), and judges what the real code says about them and what calling them does.",
    "C22": "TLC generates all contents, folders and histories of the model (Import), the real code imports them, and TLC judges what it got.",
    "C23": "TLC generates all arguments and all changes of props of the model (Tool); the real program runs in processes of its own, with stand-ins for the debugger and the graphics card; TLC judges what it shows.",
    "C24": "TLC generates all packages of the model (Pack); the real hook runs with stand-ins for PyInstaller, which is not available here; TLC judges what it adds.",
}


def note(name, spec):
    if name in ALL:
        return ALL[name] + " Bounds in DESIGN.md."
    models = MODELS.get(name, [])
    return NOTE.format(models=", and TLC generates all transitions of models of " + ", ".join(models) if models else "")


checks, na = [], []
for p in PROPS:
    spec = registry.CHECKS.get(p["id"])
    if spec is None:
        na.append({"property": p["id"], "reason": "no check yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} --tier quick",
        "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
        "technique": spec.get("technique", "TLA+ specification; TLC validates traces of the real code"),
        "level": spec.get("level", "model_checking"),
        "level_note": note(p["id"], spec),
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: all observations are made through its public interfaces.",
}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
