#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current tree (tier from VERIF_TIER, seed from VERIF_SEED)."""
import importlib, os, shutil, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import core

TABLE = {
    "C01": ("p_tensor", "run", "RULE"),
    "C02": ("p_misc", "c02", "RULE"),
    "C03": ("p_layer", "c03", "RULE"),
    "C04": ("p_layer", "c04", "RULE"),
    "C05": ("p_layer", "c05", "RULE"),
    "C06": ("p_layer", "c06", "RULE"),
    "C07": ("p_layer", "c07", "RULE"),
    "C08": ("p_layer", "c08", "RULE"),
    "C09": ("p_layer", "c09", "RULE"),
    "C10": ("p_layer", "c10", "RULE"),
    "C11": ("p_layer", "c11", "RULE"),
    "C12": ("p_shape", "c12", "RULE"),
    "C13": ("p_model", "c13", "RULE"),
    "C14": ("p_model", "c14", "RULE"),
    "C15": ("p_model", "c15", "RULE"),
    "C16": ("p_model", "c16", "RULE"),
    "C17": ("p_opt", "c17", "RULE"),
    "C18": ("p_opt", "c18", "RULE"),
    "C19": ("p_loader", "c19", "RULE"),
    "C20": ("p_loader", "c20", "RULE"),
    "C21": ("p_model", "c21", "RULE"),
    "C22": ("p_model", "c22", "RULE"),
    "C23": ("p_model", "c23", "RULE"),
    "C24": ("p_misc", "c24", "RULE"),
    "C25": ("p_misc", "c25", "RULE"),
    "C26": ("p_image", "c26", "RULE"),
    "C27": ("p_misc", "c27", "RULE"),
    "C28": ("p_tensor", "c28", "RULE28"),
    "C29": ("p_threads", "c29", "RULE"),
    "C30": ("p_sample", "c30", "RULE"),
}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod, fn, rule = TABLE[prop]
    m = importlib.import_module("vlib." + mod)
    v = core.Verdict(prop, tier, seed)
    os.makedirs(core.VERIF + "/.work", exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + "-", dir=core.VERIF + "/.work")
    try:
        getattr(m, fn)(v, work)
        rc = core.finish(v, "model_checking", getattr(m, rule))
    except core.MachineryError as e:
        print("ERROR: the check could not run: %s" % e, file=sys.stderr)
        rc = 3
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


main()
