"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table (keeps them in step)."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, level="model_checking"):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, technique=technique, note=note, level=level))


RM = "RMutils/util_RM.py"
MI = "RMutils/util_misc.py"
S1 = "RMtools_1D/do_RMsynth_1D.py"
C1 = "RMtools_1D/do_RMclean_1D.py"
S3 = "RMtools_3D/do_RMsynth_3D.py"
C3 = "RMtools_3D/do_RMclean_3D.py"
PK = "RMtools_3D/RMpeakfit_3D.py"
IC = "RMtools_3D/do_fitIcube.py"
CC = "RMtools_3D/create_chunks.py"
AC = "RMtools_3D/assemble_chunks.py"
XR = "RMtools_3D/extract_region.py"
RS = "RMtools_3D/rescale_I_model_3D.py"
FF = "RMtools_3D/make_freq_file.py"
QU = "RMtools_1D/do_QUfit_1D_mnest.py"
BW = "RMtools_1D/rmtools_bwdepol.py"
BP = "RMtools_1D/rmtools_bwpredict.py"
RF = "RMtools_1D/calculate_RMSF.py"
CM = "RMtools_1D/clean_model.py"
F1 = "RMtools_1D/do_RMsynth_1D_fromFITS.py"

exec(open(os.path.join(HERE, "tools", "props_table.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
            }) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(HERE, "checks", p["id"] + ".py")):
            checks.append({
                "property": p["id"],
                "quick_cmd": "bash run.sh %s --tier quick" % p["id"],
                "thorough_cmd": "bash run.sh %s --tier thorough" % p["id"],
                "technique": p["technique"], "level": p["level"], "level_note": p["note"],
            })
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo are needed: the checks drive the public functions and command line tools of the working tree, "
                  "replacing the process pool, the sampler and the file-write primitives from outside."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not claimed")


if __name__ == "__main__":
    main()
