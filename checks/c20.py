from vf.common import *

def check(c):
    model_check(c, "OrdMapMC", "OrdMapMC.cfg", timeout=300)
    n, m = (60, 160) if c.thorough else (12, 80)
    w = c.sub("drv")
    copy_src("smlnj-lib/Util", w + "/Util")
    r = sml_driver(w, [DRV + "/util.sml", DRV + "/ordmap.sml"], ["$/basis.cm", "Util/smlnj-lib.cm"], "Main.main ()",
                   env={"VF_SEED": c.seed, "VF_N": n, "VF_M": m}, timeout=200)
    driver_ok(c, r, "ordered maps and sets")
    tf = os.path.join(w, "trace.out")
    if not os.path.exists(tf):
        return
    tr = [json.loads(x) for x in open(tf) if x.strip().endswith("}")]
    c.cov["operations"] = sum(len(t["ev"]) for t in tr)
    c.sample({"id": tr[0]["id"], "ev": tr[0]["ev"][:4]})
    validate_traces(c, "OrdMapTrace", "Trace.cfg", tr, "ordered maps/sets", timeout=600)
