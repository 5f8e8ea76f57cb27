"""C24: configuration files, decided by Config.tla."""
import json
import random
import re
import sys
import time

import configdrv
import model
import vh
from model import Mismatch

OPTS = ["port", "repl_port", "counter.port", "virtual_ip", "bind_ip", "max_connections", "counter.max_connections",
        "temp_dir", "user", "group", "log.threshold", "log.file", "buckets", "counter.buckets", "max_data_size",
        "heap_data_limit", "memory_limit", "repl_buffer_size", "initial_repl_sleep_delay_usec", "secure_erase",
        "lock_memory", "counter.enable", "workers", "gc_interval", "slave_timeout", "counter.stat_interval"]
PROBED = ["max_connections", "counter.max_connections", "heap_data_limit", "temp_dir", "repl_buffer_size",
          "slave_timeout", "initial_repl_sleep_delay_usec", "user", "group", "log.file", "bind_ip",
          "counter.buckets", "counter.stat_interval"]
# (these look at nothing that other options change)
FREE = ["user", "group", "log.file", "bind_ip", "slave_timeout", "max_connections"]
PORTS = {"port", "repl_port", "counter.port"}


def good(o, w, table):
    return next(l for l in table[o] if l["v"]["w"] == w)


def base(table, without=()):
    ls = [good(o, w, table) for o, w in (("port", "@port"), ("repl_port", "@port"), ("counter.port", "@port"),
                                         ("buckets", "999")) if o not in without]
    return ls


def jobs_for(table, rnd, nrandom, setuid):
    """(lines, probes, kind)"""
    out = []

    def oks(o):
        return [l for l in table[o] if l["v"]["ok"]]

    def add(lines, probes=(), kind="run"):
        lines = list(lines)
        opts = {l["o"] for l in lines}
        if kind == "run" and any(p.startswith("counter.") for p in probes) and "counter.enable" not in opts:
            lines.append(good("counter.enable", "true", table))
        if "heap_data_limit" in probes and "max_data_size" not in opts:
            lines.append(good("max_data_size", "2M", table))
        rnd.shuffle(lines)
        out.append((lines, list(probes), kind))
    for o in OPTS:
        for l in table[o]:
            w = l["v"]["w"]
            if o in ("user", "group") and not setuid:
                continue
            if w == "@closed":
                if setuid:
                    add(base(table) + [l], kind="unpriv")
            elif o == "log.threshold" and l["v"]["ok"]:
                add(base(table, {"buckets"}) + [good("buckets", "10000", table), l], kind="levels")
            else:
                add(base(table, {o}) + [l], [o] if o in PROBED and l["v"]["ok"] else [])
        # nothing is said of it
        if o in PORTS:
            add(base(table, {o}) + [good("counter.enable", "true", table)], kind="default")
        elif o == "log.threshold":
            add(base(table, {"buckets"}) + [good("buckets", "10000", table)], kind="levels")
        else:
            add(base(table, {o}), [o] if o in PROBED else [])
    for l in table["junk"]:
        add(base(table) + [l])
    # twice: the last counts
    for o in OPTS:
        if len(oks(o)) > 1 and o not in PORTS | {"user", "group", "log.threshold"}:
            for _ in range(2):
                a, b = rnd.sample(oks(o), 2)
                ls = base(table, {o})
                ls.insert(rnd.randrange(len(ls) + 1), a)
                out.append((ls + [b], [o] if o in PROBED and o in FREE else [], "run"))
    # many options
    rest = [o for o in OPTS if o not in PORTS and o != "log.threshold" and (setuid or o not in ("user", "group"))]
    for _ in range(nrandom):
        os_ = rnd.sample(rest, rnd.randrange(2, len(rest)))
        if "bind_ip" in os_ and "virtual_ip" in os_:
            os_.remove("virtual_ip")
        if "buckets" in os_:
            ls = base(table, {"buckets"})
        else:
            ls = base(table)
        pick = [rnd.choice(oks(o)) for o in os_]
        if rnd.random() < 0.35:
            i = rnd.randrange(len(os_))
            pick[i] = rnd.choice([l for l in table[os_[i]] if not l["v"]["ok"] and l["v"]["w"] != "@closed"] or [pick[i]])
        add(ls + pick, [rnd.choice(FREE)])
        if not setuid:
            out[-1] = (out[-1][0], [p for p in out[-1][1] if p not in ("user", "group")], "run")
    return out


def one(j, seed, skipped):
    lines, probes, kind = j
    for t in range(6):
        rnd = random.Random("%s/%s" % (seed, t))
        if kind == "default":
            have = {l["o"] for l in lines}
            if not all(configdrv.port_free(p) for o, p in
                       (("port", 11211), ("repl_port", 11213), ("counter.port", 11215)) if o not in have):
                if t < 5:
                    time.sleep(0.5)
                    continue
                skipped.append(sorted(PORTS - have))
                return None
        try:
            if kind == "levels":
                return configdrv.Levels(lines, rnd).go()
            return configdrv.Run(lines, probes, rnd, unpriv=kind == "unpriv").go()
        except vh.DaemonDied as e:
            if "ddress already in use" in str(e) and t < 5:
                continue
            raise Mismatch("the server ends: %s" % e, None)
        except (vh.Stuck, EOFError, OSError) as e:
            raise Mismatch("%s: %s" % (type(e).__name__, e), None)


def work(js, seed, limit):
    out, bad, skipped = [], [], []
    t = time.time()
    for i, j in js:
        if time.time() - t > limit:
            break
        err = None
        for again in range(2):
            try:
                r = one(j, "%s/%s/%s" % (seed, i, again), skipped)
                err = None
                if r:
                    out.append(r)
                break
            except Mismatch as e:
                err = e
        if err:
            bad.append({"what": err.args[0], "lines": [(l["o"], l["v"]["w"]) for l in j[0]], "probes": j[1]})
    return {"runs": out, "bad": bad, "skipped": skipped, "left": len(js) - len(out) - len(bad) - len(skipped)}


def c24(ck):
    vh.build()
    vh.build_shim()
    # the meaning of files, for all short files over some options at a time
    r = model.check_model("Config", dict(Opts=set(OPTS), Lines=1, DumpOn=True), ("Inv",), workers=2)
    if not r.ok:
        sys.stderr.write(r.out[-3000:])
        raise vh.CheckError("TLC: Config")
    lines = next(json.loads(json.loads(l)[2:]) for l in r.out.splitlines() if l.startswith('"##'))
    ck.add(states=r.distinct, transitions=r.generated)
    table = {}
    for l in lines:
        table.setdefault(l["o"], []).append(l)
    for o in table:
        table[o].sort(key=lambda l: (l["v"]["w"], l["v"]["ok"]))
    for opts, n in [({"port", "bind_ip", "counter.enable", "log.threshold"}, 3), (set(OPTS), 2)] + (
            [({"workers", "user", "log.file"}, 4), ({"memory_limit", "temp_dir"}, 3)] if vh.THOROUGH else []):
        r = model.check_model("Config", dict(Opts=opts, Lines=n, DumpOn=False), ("Inv",), workers=8)
        if not r.ok:
            sys.stderr.write(r.out[-3000:])
            raise vh.CheckError("TLC: Config")
        ck.add(states=r.distinct, transitions=r.generated)
    rnd = random.Random(vh.SEED)
    setuid = configdrv.can_setuid()
    js = list(enumerate(jobs_for(table, rnd, 4000 if vh.THOROUGH else 250, setuid)))
    first = [j for j in js if j[1][2] == "default"]
    rest = [j for j in js if j[1][2] != "default"]
    rnd.shuffle(rest)
    parts = [first + rest[0::8]] + [rest[i::8] for i in range(1, 8)]
    res = model.parallel([lambda p=p: work(p, vh.SEED, 500 if vh.THOROUGH else 300) for p in parts])
    runs = [x for y in res for x in y["runs"]]
    for y in res:
        for b in y["bad"]:
            ck.violation("%s" % b["what"], b)
    recs = [{"file": [{"o": l["o"], "v": l["v"]} for l in x["file"]], "ran": x["ran"], "seen": x["seen"]} for x in runs]
    r = model.check_model("Config", dict(Opts=set(OPTS), Lines=0, DumpOn=False), ("Judged",), init="JInit",
                          next_="JNext", workers=1, files={"runs.json": json.dumps(recs)})
    if not r.ok:
        sys.stderr.write(r.out[-3000:])
        raise vh.CheckError("TLC failed on the recorded runs")
    for i in sorted({int(m) for m in re.findall(r'<<"bad", (\d+)>>', r.out)}):
        x = runs[i - 1]
        ck.violation("a configuration file %s, seen %s" % (
            "is accepted" if x["ran"] else "is rejected (%s)" % x["why"][-200:].strip(), x["seen"]),
            {"text": x["text"], "lines": [(l["o"], l["v"]["w"], l["v"]["ok"], l["v"]["e"]) for l in x["file"]],
             "seen": x["seen"], "ran": x["ran"]})
    ck.add(traces_validated_against_impl=len(runs))
    ck.cov["files"] = {"run": len(runs), "accepted": sum(x["ran"] for x in runs),
                       "left out": sum(y["left"] for y in res), "setuid": setuid,
                       "default ports in use by others": [s for y in res for s in y["skipped"]],
                       "looked for": sorted({o for x in runs for o in x["seen"]})}
    ck.sample({"file": runs[0]["text"], "ran": runs[0]["ran"], "seen": runs[0]["seen"]})
