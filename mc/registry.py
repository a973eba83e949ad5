"""Checks by property."""

import importlib
import json
import os

from . import core

CHECKS = {
    "M01": ("nga", "ASK14"),
    "M02": ("nga", "BSSA14"),
    "M03": ("nga", "CB14"),
    "M04": ("nga", "CY14"),
    "M05": ("nga", "I14"),
    "M06": ("gmm", "EAST"),
    "M07": ("gmm", "AB06"),
    "M08": ("gmm", "ASB14"),
    "M09": ("gmm", "DBC14"),
    "M10": ("gmm", "SUBDUCTION"),
    "M11": ("other", "hkr14"),
    "M12": ("other", "GA11"),
    "M13": ("other", "DURATION"),
    "M14": ("other", "AS16"),
    "M15": ("other", "PR23"),
    "M16": ("other", "PR24"),
    "M17": ("other", "BA19"),
    "M18": ("other", "BA18"),
    "M19": ("other", "STAFFORD"),
    "M20": ("other", "CONDITIONAL"),
    "M21": ("other", "CMSV"),
    "M22": ("other", "AB20"),
    "M23": ("estimators", "ESTIMATORS"),
    "M24": ("estimators", "SITE_TERMS"),
    "C01": ("scenario", "c01"),
    "C02": ("scenario", "c02"),
    "C03": ("history", "c03"),
    "C04": ("history", "c04"),
    "C05": ("threads", "c05"),
    "C06": ("scenario", "c06"),
    "C07": ("scenario", "c07"),
    "C08": ("contract", "c08"),
    "C09": ("contract", "c09"),
    "C10": ("contract", "c10"),
    "C11": ("contract", "c11"),
    "C12": ("correlation", "c12"),
    "C13": ("trends", "c13"),
    "C14": ("trends", "c14"),
    "C15": ("correlation", "c15"),
    "C16": ("correlation", "c16"),
    "C17": ("physics", "c17"),
    "C18": ("physics", "c18"),
    "C19": ("physics", "c19"),
    "C20": ("physics", "c20"),
    "C21": ("physics", "c21"),
    "C22": ("physics", "c22"),
    "C23": ("process", "c23"),
    "C24": ("process", "c24"),
    "C25": ("extension", "c25"),
    "C26": ("ambient", "c26"),
}


def load(pid):
    """The exploration of a property: a function of a report."""
    module, func = CHECKS[pid]
    run = getattr(importlib.import_module("mc.checks." + module), func)
    return run.explore if hasattr(run, "explore") else run


def selftest():
    """The machinery and the library can be imported, and every check exists."""
    core.import_library()
    for pid in CHECKS:
        assert callable(load(pid)), pid
    print(f"{len(CHECKS)} checks")
    return 0


def replay(path):
    """Repeats the exploration that found the violations of a file.

    Explorations are deterministic, so that the same states are visited in the
    same order. Returns 1 if at least one of the recorded violations occurs.
    """
    with open(path) as fp:
        doc = json.load(fp)
    pid = doc["property"]
    os.environ["VERIF_TIER"] = doc.get("tier", "quick")
    rep = core.explore(pid, load(pid))
    found = {v["key"]: v for v in rep.violations}
    again = [v for v in doc["violations"] if v["key"] in found]
    for v in again[:10]:
        print(json.dumps(found[v["key"]])[:3000])
    print(f"{len(again)} of {len(doc['violations'])} recorded violations occur again")
    return 1 if again else 0
