"""Writing evidence and replay files, and reading the known findings."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _write(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "w") as fh:
        json.dump(obj, fh, indent=1, default=repr, allow_nan=False)
        fh.write("\n")
    os.replace(tmp, path)


def clean(o):
    """JSON-able form of o; floats that JSON cannot hold become strings."""
    import math

    if isinstance(o, dict):
        return {str(k): clean(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [clean(v) for v in o]
    if isinstance(o, bool) or o is None or isinstance(o, (int, str)):
        return o
    if isinstance(o, float):
        return o if math.isfinite(o) else repr(o)
    if hasattr(o, "tolist"):
        return clean(o.tolist())
    return repr(o)


def evidence(prop, tier, coverage, wall, assumptions, violations):
    seed = os.environ.get("VERIF_SEED", "0")
    _write(
        os.path.join(VERIF, "evidence", prop + ".json"),
        clean(
            dict(
                property=prop,
                tier=tier,
                seed=int(seed) if seed.lstrip("-").isdigit() else 0,
                level="model_checking",
                coverage=dict(coverage, found=violations) if violations else coverage,
                wall_s=round(wall, 3),
                assumptions=assumptions,
                violations=len(violations),
            )
        ),
    )


def replay(prop, tier, task, name, case, msg, data):
    path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, task))
    _write(
        path,
        clean(
            dict(
                property=prop, tier=tier, task=task, name=name, case=case,
                message=msg, data=data,
                how="python3 /verif/mc/run.py --replay " + path,
            )
        ),
    )
    return path


def known(prop):
    """{key: text} of the findings recorded, not repaired, for a property."""
    out = {}
    try:
        with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as fh:
            for line in fh:
                if line.startswith("known: "):
                    f = line.split(None, 3)
                    if f[1] == "property=" + prop and f[2].startswith("key="):
                        out[f[2][4:]] = f[3].strip() if len(f) > 3 else ""
    except OSError:
        pass
    return out


def orphan(prop, tier, why, wall):
    path = replay(prop, tier, "warmup", "the whole check", "", why, None)
    evidence(
        prop, tier,
        dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[why],
             exhaustive=False),
        wall, [], [dict(message=why, replay=path)],
    )
    print("the code under test %s" % why)
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1
