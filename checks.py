"""Which harness executables decide which property."""
CHECKS = {
    "P01": {"level": "model_checking", "parts": [{"exe": "taskmgr", "real": [1, 2, 3]}]},
    "P02": {"parts": [{"exe": "hashmap", "real": [1, 2, 3, 4]}]},
    "P03": {"parts": [{"exe": "gstore", "real": [1, 2, 3]}]},
    "P04": {"parts": [{"exe": "shuffle", "real": [2, 3, 4]}]},
    "P05": {"parts": [{"exe": "comms", "real": [1, 2, 3, 4]}]},
    "P06": {"parts": [{"exe": "netpart", "real": [1, 2, 3, 4]}]},
    "P07": {"parts": [{"exe": "exchange", "real": [1, 2, 3, 4]}]},
    "P08": {"parts": [{"exe": "nethist", "real": [1, 2, 3, 4]}]},
    "P09": {"parts": [{"exe": "factory", "real": [1, 2, 3, 4]}]},
    "P10": {"parts": [{"exe": "fullmap", "only": "mat", "real": [1, 2, 3, 4]}]},
    "P11": {"parts": [{"exe": "fullmap", "only": "vec", "real": [1, 2, 3, 4]}]},
    "P12": {"parts": [{"exe": "genmap", "real": [1, 2, 3, 4]}]},
    "P13": {"parts": [{"exe": "linalg", "real": [1,2,3,4]}]},
    "P14": {"parts": [{"exe": "linsolve", "real": [1, 2]}]},
    "P15": {"parts": [{"exe": "nlsolve", "real": [1, 2, 3]}]},
    "P16": {"parts": [{"exe": "daesolve", "real": [1, 2]}]},
    "P17": {"parts": [{"exe": "serialio", "real": [1, 2, 3, 4]}]},
    "P18": {"parts": [{"exe": "config", "real": [1, 2, 3]}]},
    "P19": {"parts": [{"exe": "datacoll", "real": [1, 2, 3]}]},
    "P20": {"parts": [{"exe": "powerflow", "real": [1, 2, 3]}]},
    "P21": {"parts": [{"exe": "rawparse", "real": [1, 2, 3]}]},
    "P22": {"parts": [{"exe": "hashdist", "real": [1, 2, 3]}]},
    "P23": {"parts": [{"exe": "statblk", "real": [1, 2, 3]}]},
    "P24": {"parts": [{"exe": "sest", "real": [1, 2, 3]}]},
    "P25": {"parts": [{"exe": "netquery", "real": [1, 2, 3]}]},
    "P26": {"parts": [{"exe": "dynsim", "real": [1, 2, 3]}]},
    "P27": {"parts": [{"exe": "export", "real": [1, 2, 3]}]},
    "P28": {"parts": [{"exe": "contan", "real": [1, 2, 3]}]},
    "P29": {"parts": [{"exe": "strutil", "real": [1]}]},
    "P30": {"parts": [{"exe": "dyr", "real": [1, 2, 3]}]},
    "P31": {"parts": [{"exe": "blocks", "real": [1]}]},
    "P32": {"parts": [{"exe": "dsmodel", "real": [1, 2]}]},
}
ALL_HARNESSES = sorted({p["exe"] for c in CHECKS.values() for p in c["parts"]})
