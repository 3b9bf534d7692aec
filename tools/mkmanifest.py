#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os

TV = "TLA+ spec model-checked with TLC; executions of the real code validated against it (trace validation)"
CHECKS = {
 "C01": "Datagram.tla enumerates datagram shapes (exhaustively up to a number of deviations from a valid query) and what each requires; they are sent to the real crawler, sequentially and from many concurrent clients (perturbed and race-detector builds), and every reply validated by Crawler_Trace.",
 "C02": "Crawler.tla is checked exhaustively (broken variants shown to fail); shapes that require no reply, generated malformed and mutated datagrams, and hostile responses are sent to the real crawler; silence, liveness and later replies are validated. Sampled byte strings.",
 "C05": "Crawler.tla's learn/query histories are replayed against the real crawler by simulated DHT nodes; every query that leaves it is validated against an abstract routing table.",
 "C06": "Crawler.tla's announce/fetch pipeline is checked exhaustively; announce histories with reading, hanging, garbage and refusing peers are run against the real crawler and every TCP connection validated.",
 "C07": "Save.tla (writer steps, crash, short write, several writers) is checked exhaustively, wrong designs shown to fail; the real crawler saves from simulated peers under file-size limits, kill -9 and concurrency while inotify and readers observe the directory, and the trace is validated.",
 "C08": "Fetch.tla (one fetch from a peer sending any message sequence) is checked exhaustively; peer scripts it generates, with wrong contents mixed in, are played by real TCP peers against the real fetch, many at once, and every result validated.",
 "C09": "Fetch.tla decides which scripts follow the protocol; those, with varied sizes, orders, TCP segmentation and parallel fetches, must succeed on the real code.",
 "C10": "Fetch.tla terminates under fairness; silent, endless, dripping, never-reading and lying peers are played against the real fetch and duration, closing and allocation bounded.",
 "C11": "RouteTable.tla is checked exhaustively in small constants; TLC's transition cover of it, embedded at many bit positions, plus random insertion sequences are run on the real table and every step validated. Bounded, not a proof over all histories.",
 "C12": "As C11, with the result, the stored set and the size of each insertion compared with the abstract table; concurrent histories (race-detector build) must be linearizable to it.",
 "C13": "As C11, with lookups of stored, absent, twin and near ids after every behaviour.",
 "C03": "Krpc.tla is checked exhaustively (and its broken variants shown to fail); query/answer histories, sequential and concurrent (perturbed and race-detector builds), are run against the real server over loopback and validated. Sampled schedules.",
 "C04": "TxId.tla is checked exhaustively in small constants; long single-goroutine runs and concurrent ones (perturbed and race-detector builds) of the real generators are validated.",
 "C14": "WorkPool.tla is checked exhaustively in small constants; its behaviours and random schedules are replayed on the real pool under a fake clock (testing/synctest) and validated, concurrent ones with perturbed and race-detector builds.",
 "C15": "As C14, with Shutdown, cancellation and time as events; durations are exact under the fake clock.",
 "C16": "Shutdown.tla is checked exhaustively; schedules of cleanups, signals and timeouts run on the real code under a fake clock, and with real signals in child processes and the crawler binary.",
 "C17": "BytesPool.tla is checked exhaustively; sequential and concurrent histories of the real pool are validated (linearizability to the abstract pool).",
 "C18": "SyncMap.tla is checked exhaustively; concurrent histories of the real map (perturbed and race-detector builds) must be linearizable to the abstract map.",
 "C19": "Middleware.tla is checked exhaustively and enumerates the handler chains that are then run on the real server over loopback; every handler entry, pass-on, write and reply is validated.",
 "C20": "Bencode.tla enumerates inputs over a byte alphabet up to a length; these, mutated and random byte strings are decoded by the real code and each result compared with BencodeOps.",
 "C21": "As C20, with values generated from the specification and at random, encoded and decoded by the real code.",
 "C22": "Udp.tla is checked exhaustively in small constants; its behaviours, and random concurrent runs, are replayed on a real endpoint over loopback and validated.",
 "C23": "Config.tla (file states x starts) is checked exhaustively, wrong designs shown to fail; its histories of edits and starts, with random and unparsable contents, are run with the real configuration package in fresh processes and validated, and running crawlers show port, bootstrap nodes, pool size and pprof.",
 "C24": "Outgoing queries of many shapes are sent by the real server to loopback peers; each datagram is parsed with BencodeOps and compared with what was given, as is each reply written with the reply builders.",
 "C25": "InfoLog.tla (query, log line, reply, restart) is checked exhaustively, wrong designs shown to fail; datagram shapes of Datagram.tla are sent to the real crawler in sequence and concurrently, with kills and restarts, and the log's new lines validated after the replies.",
 "C26": "Torrents.tla (listing while files are saved) is checked exhaustively, wrong designs shown to fail; the real command lists directories of generated files, also under a low limit of open files and beside a crawler that saves, and what it prints is compared with BencodeOps' reading of each file.",
 "C27": "Logger.tla (table, lock, levels shared with derived loggers) is checked exhaustively, wrong designs shown to fail; its behaviours, and random sequential and concurrent histories (perturbed and race-detector builds), are run on the real loggers and every line printed validated.",
 "C28": "Resources.tla (messages and fetches taking and giving back) is checked exhaustively, each leak refuted; the real crawler gets thousands of datagrams of every kind of Datagram.tla and fetches that end in every way, and what it holds is validated after each phase.",
 "C29": "Lifecycle.tla (processes, ports, kills) is checked exhaustively, wrong designs refuted; histories of starts, ends and taken ports, also several at once, are run with real processes and validated.",
}
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
m = dict(version=1, setup_cmd="true",
         checks=[dict(property=p, quick_cmd="VERIF_TIER=quick python3 run/check.py " + p,
                      thorough_cmd="VERIF_TIER=thorough python3 run/check.py " + p,
                      technique=TV, level="model_checking", level_note=CHECKS[p]) for p in props if p in CHECKS],
         not_applicable=[dict(property=p, reason=NA.get(p, "check not built yet")) for p in props if p not in CHECKS])
with open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
