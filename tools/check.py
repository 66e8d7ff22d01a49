#!/usr/bin/env python3
"""check.py PROPERTY: decide one property for the current working tree of /repo."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

def main():
    pid = sys.argv[1]
    if pid == "--setup":                 # nothing is installed: see that everything needed is there
        import glob
        for m in sorted(glob.glob(os.path.join(vlib.SPEC, "*.tla"))):
            if m.endswith("Proof.tla"):      # these are tlapm's, with its own library
                continue
            r = vlib.run(["java", "-cp", vlib.JARS, "tla2sany.SANY", os.path.basename(m)], cwd=vlib.SPEC)
            if r.returncode or "*** Errors" in r.stdout:
                print(r.stdout[-2000:]); sys.exit(2)
        vlib.build_judge(); vlib.cleanup()
        print("specifications parse, the judge builds"); sys.exit(0)
    if len(sys.argv) > 2:
        vlib.TIER = sys.argv[2]
    sys.setswitchinterval(0.02)
    try:
        import props
        rc = props.run(pid)
    except vlib.Broken as e:
        print(f"{pid}: the check cannot work: {e}", file=sys.stderr); rc = 2
    except Exception:
        traceback.print_exc(); rc = 2
    finally:
        vlib.cleanup()
    sys.exit(rc)

if __name__ == "__main__":
    main()
