import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
from check import Check

WHERE = {"P05": "framing", "P01": "auth", "P02": "auth", "P03": "cmdform", "P04": "session", "P06": "session",
         "P07": "writer", "P08": "writer", "P09": "writer", "P10": "writer", "P11": "writer", "P12": "writer",
         "P13": "conns", "P14": "conns", "P15": "conns", "P16": "lifecycle", "P19": "systemd", "C01": "client", "C03": "client", "C06": "client", "C02": "translate", "C04": "translate", "C05": "clientconf", "M01": "modules", "M02": "modules", "P18": "privs", "P17": "serverconf", "X01": "contrib", "P20": "memory", "M03": "modules"}

if __name__ == "__main__":
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    try:
        c = Check(prop)
        importlib.import_module(WHERE[prop]).CHECKS[prop](c)
        rc = c.finish()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc) if rc == 2 else sys.exit(rc)
