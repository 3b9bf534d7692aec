#!/usr/bin/env python3
"""python3 run/check.py <property id>: decides one property (see DESIGN.md)."""
import importlib, os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib

WHERE = {"C11": "routetable", "C12": "routetable", "C13": "routetable", "C20": "bencode", "C21": "bencode", "C04": "misc", "C17": "misc", "C18": "misc",
         "C14": "pool", "C15": "pool", "C16": "pool",
         "C19": "krpc", "C03": "krpc", "C24": "krpc", "C22": "udp", "C08": "fetch", "C09": "fetch", "C10": "fetch", "C01": "crawler", "C02": "crawler", "C05": "crawler", "C06": "crawler", "C07": "save", "C23": "config", "C25": "crawler", "C26": "torrents", "C27": "logger", "C28": "resources", "C29": "lifecycle"}

if __name__ == "__main__":
    p = sys.argv[1]
    mod = importlib.import_module(WHERE[p])
    lib.main(p, getattr(mod, p))
