# What each check runs: rounds per process and variant (one round = every
# sub-property `weight` times), sources, flags.
import os

STUB = os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks/stub")

CHECKS = {
    "V01": {"parts": 3, "rounds": {"san": 4000, "rel": 12000}},
    "V02": {"parts": 3, "rounds": {"san": 4000, "rel": 12000}},
    "V03": {"parts": 3, "rounds": {"san": 4000, "rel": 12000}},
    "V04": {"parts": 2, "rounds": {"san": 4000, "rel": 12000}},
    "V05": {"parts": 3, "rounds": {"san": 4000, "rel": 12000}},
    "V06": {"rounds": {"san": 4000, "rel": 12000}},
    "M01": {"parts": 3, "rounds": {"san": 1500, "rel": 6000}},
    "M02": {"parts": 2, "variants": {"san": 5, "dbg": 3}, "rounds": {"san": 1000, "dbg": 1500}},
    "M03": {"parts": 3, "rounds": {"san": 4000, "rel": 12000}},
    "M04": {"parts": 3, "rounds": {"san": 3000, "rel": 9000}},
    "M05": {"parts": 2, "rounds": {"san": 3000, "rel": 9000}},
    "M06": {"rounds": {"san": 3000, "rel": 9000}},
    "M07": {"parts": 3, "rounds": {"san": 3000, "rel": 9000}},
    "M08": {"parts": 3, "rounds": {"san": 3000, "rel": 9000}},
    "M09": {"parts": 2, "rounds": {"san": 3000, "rel": 9000}},
    "M10": {"parts": 2, "rounds": {"san": 3000, "rel": 9000}},
    "M11": {"parts": 2, "rounds": {"san": 3000, "rel": 9000}},
    "M12": {"rounds": {"san": 3000, "rel": 9000}},
    "M13": {"parts": 3, "rounds": {"san": 3000, "rel": 9000}},
    "M14": {"parts": 3, "rounds": {"san": 3000, "rel": 9000}},
    "M15": {"rounds": {"san": 3000, "rel": 9000}},
    "Q01": {"rounds": {"san": 3000, "rel": 9000}},
    "Q02": {"rounds": {"san": 3000, "rel": 9000}},
    "Q03": {"rounds": {"san": 3000, "rel": 9000}},
    "G01": {"rounds": {"san": 3000, "rel": 9000}},
    "G02": {"rounds": {"san": 3000, "rel": 9000}},
    "G03": {"rounds": {"san": 1500, "rel": 4500}},
    "G04": {"rounds": {"san": 1500, "rel": 4500}},
    "G05": {"rounds": {"san": 1500, "rel": 4500}},
    "G06": {"rounds": {"san": 3000, "rel": 9000}},
    "L01": {"parts": 2, "rounds": {"san": 2000, "rel": 6000}},
    "D01": {"parts": 3, "rounds": {"san": 2000, "rel": 6000}},
    "S01": {"parts": 3, "rounds": {"san": 600, "rel": 2000}},
    "S02": {"rounds": {"san": 500, "rel": 1200}},
    "T01": {"parts": 2, "rounds": {"san": 6000, "rel": 18000},
            "flags": ["-I" + STUB]},
    "C01": {"runner": "config_programs"},
    "C02": {"parts": 2, "rounds": {"san": 3000, "rel": 9000}},
    "P01": {"rounds": {"san": 800, "rel": 4000}},
    "R01": {"rounds": {"san": 100, "rel": 300}},
    "X01": {"variants": {"tsan": 4, "rel": 4}, "rounds": {"tsan": 200, "rel": 800},
            "flags": ["-pthread"], "libs": ["-pthread"], "fuzz": 0},
}
