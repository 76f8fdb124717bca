#!/usr/bin/env python3
"""check.py PROPERTY - decides one property on /repo's working tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
sys.dont_write_bytecode = True
import vlib

FAMILY = {
    "C01": "fam_network", "C15": "fam_network",
    "C02": "fam_msgr",
    "C03": "fam_msgr", "C04": "fam_msgr", "C05": "fam_msgr",
    "C06": "fam_msgr", "C07": "fam_msgr", "C08": "fam_msgr",
    "C09": "fam_subs", "C10": "fam_subs",
    "C11": "fam_send", "C12": "fam_send", "C13": "fam_send",
    "C16": "fam_life", "C17": "fam_daemon",
    "C14": "fam_route",
    "C18": "fam_artifact", "C19": "fam_artifact", "C20": "fam_artifact",
    "C26": "fam_artifact",
    "C21": "fam_invreq",
    "C22": "fam_offerstr",
    "C23": "fam_perm",
    "C24": "fam_send",
    "C25": "fam_codec",
    "C27": "fam_config",
}

# Families that validate traces of a state machine.
TRACED = {"fam_msgr", "fam_subs", "fam_send", "fam_life", "fam_daemon", "fam_route", "fam_artifact",
          "fam_invreq", "fam_offerstr", "fam_perm", "fam_codec", "fam_network",
          "fam_config"}
NA = {}


def main():
    prop = sys.argv[1]
    ctx = vlib.Ctx(prop)
    try:
        importlib.import_module(FAMILY[prop]).run(ctx)
        return ctx.finish()
    except vlib.Broken as e:
        print("ERROR in the check of %s: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


if __name__ == "__main__":
    sys.exit(main())
