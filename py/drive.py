"""Ask the Python binding every question of the generated cases, and compare with the library's answers.
drive.py <dir> quick|thorough [key]: <dir> holds what `mc pyref` wrote; a key restricts to one case (a replay)."""
import collections, glob, json, multiprocessing as mp, os, sys, threading, time, traceback, faulthandler
DIR, TIER = sys.argv[1], sys.argv[2]
ONLY = sys.argv[3] if len(sys.argv) > 3 else None
THOROUGH = TIER == "thorough"
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.environ.get("VERIF_ROOT", "/verif")
FOUND = mp.Value("i", 0)  # violations, over all workers
LIMIT = 60  # seconds for one task of a worker; longer is a hang
SIG = {"get_file_slices_splits": ["n", "filters"], "get_file_slices_splits_as_of": ["n", "timestamp", "filters"],
       "get_file_slices": ["filters"], "get_file_slices_as_of": ["timestamp", "filters"],
       "get_file_slices_between": ["start_timestamp", "end_timestamp"], "read_snapshot": ["filters"],
       "read_snapshot_as_of": ["timestamp", "filters"], "read_incremental_records": ["start_timestamp", "end_timestamp"],
       "get_instant_metadata_in_json": ["instant"]}
SLICE = ["file_id", "partition_path", "creation_instant_time", "base_file_name", "base_file_size",
         "base_file_byte_size", "num_records", "log_file_names"]

class Worker:
    def __init__(self, out, beat):
        self.out, self.beat, self.n, self.nontrivial, self.seen = out, beat, 0, 0, set()
        self.counts = collections.Counter(); self.samples = []
        import pyarrow, hudi
        from hudi._internal import build_hudi_table
        self.pa, self.hudi, self.build = pyarrow, hudi, build_hudi_table
        self.cache = {}
    def wants(self, key): return ONLY is None or key == ONLY
    def eval(self, key, nontrivial=True):
        self.n += 1; self.beat.value = time.time()
        if nontrivial and key not in self.seen: self.seen.add(key); self.nontrivial += 1
    def violation(self, key, what):
        with FOUND.get_lock(): FOUND.value += 1; n = FOUND.value
        if n < 60: self.out.put(("V", key, what))

    # --- values
    def schema(self, s): return repr([(f.name, str(f.type), f.nullable, sorted((f.metadata or {}).items())) for f in s] + [sorted((s.metadata or {}).items())])
    def batch(self, b): return self.schema(b.schema) + "\n" + repr(b.to_pylist())
    def ipc(self, h):
        if h not in self.cache:
            r = self.pa.ipc.open_stream(bytes.fromhex(h)); s = r.schema
            bs = list(r)
            self.cache[h] = self.batch(bs[0]) if bs else self.schema(s)
        return self.cache[h]
    def slice(self, s):
        d = {k: getattr(s, k) for k in SLICE}
        d["base_file_relative_path"] = s.base_file_relative_path()
        d["log_files_relative_paths"] = s.log_files_relative_paths()
        return json.dumps(d, sort_keys=True)
    def expected(self, w):
        k, v = w["kind"], w["ok"]
        if k in ("batch", "schema"): return self.ipc(v)
        if k == "batches": return sorted(self.ipc(x) for x in v)
        if k == "slices": return sorted(json.dumps(x, sort_keys=True) for x in v)
        # the order of slices is not specified, hence which split one is in is not
        if k == "splits": return [[len(x) for x in v], sorted(json.dumps(y, sort_keys=True) for x in v for y in x)]
        return v
    def shown(self, k, v):
        if k == "batch": return self.batch(v)
        if k == "schema": return self.schema(v)
        if k == "batches": return sorted(self.batch(x) for x in v)
        if k == "slices": return sorted(self.slice(x) for x in v)
        if k == "splits": return [[len(x) for x in v], sorted(self.slice(y) for x in v for y in x)]
        if k == "instants": return [[x.timestamp, x.action, x.state, x.epoch_mills] for x in v]
        return v
    def judge(self, want, f, fault=False):
        """None, or what is wrong. With a fault an error is right too."""
        try: got = f()
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)): raise
            kind = type(e).__name__
            if "panic" in want: return None
            ok = isinstance(e, Exception) and kind == "HudiCoreError" and str(e)
            if ("err" in want or fault) and ok: return None
            return f"{kind}: {str(e)[:400]}" + (f"; the library's error is {want['err']!r}" if "err" in want else "; the library answers")
        if "panic" in want: return f"no exception; the library panics: {want['panic']}"
        if "err" in want: return f"no exception; the library's error is {want['err']!r}"
        if "kind" not in want: return None
        exp = self.expected(want)
        try: got = self.shown(want["kind"], got)
        except BaseException as e: return f"answer cannot be shown: {type(e).__name__} {e}; expected {exp!r:.600}"
        if got != exp: return f"answers {got!r:.900}\n    the library {exp!r:.900}"
        return None
    def has_rows(self, w): return bool(w.get("ok")) if "kind" in w else True

    # --- calls
    def forms(self, obj, c):
        """The ways to pass the arguments: by name, and by position where they are the first ones."""
        m, args = c["m"], c["args"]
        if args is None: return [("", lambda o=obj: getattr(o, m))]
        kw = {k: ([tuple(x) for x in v] if k == "filters" and v is not None else v) for k, v in args}
        if "instant" in kw:
            ts = kw["instant"]
            kw["instant"] = next(i for i in obj.get_completed_commits() if i.timestamp == ts)
        v = [("by name", lambda: getattr(obj, m)(**kw))]
        order = [k for k in SIG.get(m, ["desc"]) if k in kw]
        if order and order == SIG.get(m, ["desc"])[:len(order)]:
            v.append(("by position", lambda: getattr(obj, m)(*[kw[k] for k in order])))
        return v
    def label(self, c): return f"{c['m']}({', '.join(f'{k}={v!r}' for k, v in c['args'] or [])})"
    def opens(self, o, uri):
        if o["how"] == "new":
            v = [("by position", lambda: self.hudi.HudiTable(uri, o["options"])), ("by name", lambda: self.hudi.HudiTable(base_uri=uri, options=o["options"]))]
            if not o["options"]: v += [("alone", lambda: self.hudi.HudiTable(uri)), ("None", lambda: self.hudi.HudiTable(uri, None))]
            return v
        h, s, g = o["hudi"], o["storage"], o["options"]
        B = self.hudi.HudiTableBuilder
        def single():
            b = B.from_base_uri(uri)
            for k, v in h.items(): b = b.with_hudi_option(k, "stale").with_hudi_option(k, v)
            for k, v in s.items(): b = b.with_storage_option(k, "stale").with_storage_option(k, v)
            for k, v in g.items(): b = b.with_option(k, "stale").with_option(k, v)
            return b.build()
        def plural():
            B.from_base_uri(uri).with_options({"other": "builder"})
            b = B.from_base_uri(uri)
            for k, v in h.items(): b = b.with_hudi_options({k: v})
            for k, v in s.items(): b = b.with_storage_options({k: v})
            for k, v in g.items(): b = b.with_options({k: v})
            return b.build()
        def twice():
            b = B.from_base_uri(uri).with_hudi_options(h).with_storage_options(s).with_options(g)
            b.build()
            return b.build()
        return [("function", lambda: self.build(uri, h or None, s or None, g or None)),
                ("function, by name", lambda: self.build(base_uri=uri, hudi_options=h, storage_options=s, options=g)),
                ("builder, options", plural), ("builder, option by option", single), ("builder, twice", twice),
                ("builder, fields", lambda: B(uri, h, s, g).build())]

    def case(self, i):
        case = json.load(open(f"{DIR}/{i}/case.json"))
        for o in case["opens"]:
            ol = f"{case['name']}: open {o['how']} {o['options']} {o['hudi']} {o['storage']}"
            forms = self.opens(o, case["uri"])
            for j, (form, f) in enumerate(forms):
                key = f"{ol} {form}"
                calls = o.get("calls", [])
                # the first form is asked everything, the others what the options affect
                if j: calls = [c for c in calls if c["m"] in ("hudi_options", "storage_options", "table_name", "table_type", "is_mor")]
                box = []
                if self.wants(key):
                    m = self.judge(o["want"], lambda: box.append(f()))
                    self.eval(key)
                    if m: self.violation(key, m)
                else:
                    try: box.append(f())
                    except BaseException: pass
                if not box: continue
                t = box[0]
                for c in calls:
                    on = t if c["obj"] == "table" else t.get_timeline()
                    try: fs = self.forms(on, c)
                    except BaseException as e: self.violation(key, f"{self.label(c)}: {type(e).__name__}: {e}"); continue
                    for cf, f2 in fs:
                        k = f"{key}: {self.label(c)} {cf}"
                        if not self.wants(k): continue
                        m = self.judge(c["want"], f2); self.eval(k, self.has_rows(c["want"]))
                        if m: self.violation(k, m)
                        self.counts[c["m"]] += 1
                if j == 0 and "readers" in o: self.readers(key, t, o, case["uri"])
        if len(self.samples) < 2:
            self.samples.append({"table": case["name"], "ways to open": len(case["opens"]), "calls": sum(len(o.get("calls", [])) for o in case["opens"])})

    def readers(self, key, t, o, uri):
        # every slice the table lists, at any time
        found = {}
        for c in o["calls"]:
            if c["want"].get("kind") == "slices" and c["want"].get("ok"):
                try:
                    for s in self.forms(t, c)[0][1](): found[self.slice(s)] = s
                except BaseException: pass
        for r in o["readers"]:
            k = f"{key}: reader {r['options']} of {'the table' if r['of_table'] else 'its own'}"
            ways = [lambda: t.create_file_group_reader_with_options(r["options"]), lambda: t.create_file_group_reader_with_options(options=r["options"])] if r["of_table"] else \
                   [lambda: self.hudi.HudiFileGroupReader(uri, r["options"]), lambda: self.hudi.HudiFileGroupReader(base_uri=uri, options=r["options"])]
            if not r["options"]: ways.append((lambda: t.create_file_group_reader_with_options()) if r["of_table"] else (lambda: self.hudi.HudiFileGroupReader(uri)))
            for n, w in enumerate(ways):
                box = []
                m = self.judge(r["want"], lambda: box.append(w())); self.eval(f"{k} {n}")
                if m: self.violation(f"{k} {n}", m)
                if not box: continue
                for x in r["reads"]:
                    s = found.get(json.dumps(x["slice"], sort_keys=True))
                    ks = f"{k} {n}: slice {x['slice']['base_file_name']} + {len(x['slice']['log_file_names'])}"
                    if not self.wants(ks): continue
                    if s is None: self.violation(ks, "the table does not list this slice"); continue
                    for kind, f in [("read", lambda: box[0].read_file_slice(s)), ("base", lambda: box[0].read_file_slice_by_base_file_path(s.base_file_relative_path()))]:
                        m = self.judge(x[kind], f); self.eval(ks + kind, self.has_rows(x[kind])); self.counts["read_file_slice"] += 1
                        if m: self.violation(ks, f"{kind}: {m}")
                m = self.judge(r["missing"], lambda: box[0].read_file_slice_by_base_file_path("part=a/none.parquet"))
                self.eval(f"{k} {n} missing")
                if m: self.violation(f"{k} {n} missing", m)

    # --- over a store whose every request can be made to fail or to wait
    def store(self):
        if not hasattr(self, "srv"):
            sys.path.insert(0, HERE)
            from s3 import S3
            self.n_req, self.fault, self.hold = mp.Value("i", 0), mp.Value("i", -1), mp.Value("i", -1)
            self.held, self.release, self.late = mp.Event(), mp.Event(), mp.Value("i", 0)
            def ctl(kind, key):
                with self.n_req.get_lock():
                    n = self.n_req.value; self.n_req.value += 1
                if n == self.hold.value:
                    self.held.set()
                    # a call that keeps the interpreter to itself while it waits is let go
                    if not self.release.wait(0.4): self.late.value += 1
                return n == self.fault.value
            self.srv = S3(DIR, ctl)
        return self.srv
    def arm(self, fault=-1, hold=-1):
        self.held.clear(); self.release.clear(); self.n_req.value = 0; self.fault.value = fault; self.hold.value = hold
    def picked(self, case):
        """A call of every method, and one with partition filters where it has them."""
        out = {}
        for c in case["opens"][0]["calls"]:
            if c["m"] in ("hudi_options", "storage_options") or c["args"] is None or "ok" not in c["want"]: continue
            f = dict(c["args"] or []).get("filters")
            if f is not None and not f: continue
            k = (c["m"], bool(f))
            size = len(json.dumps(c["want"]))
            if k not in out or size > out[k][0]: out[k] = (size, c)
        return [c for _, c in out.values()]
    def case_at(self, i):
        if ("case", i) not in self.cache: self.cache[("case", i)] = json.load(open(f"{DIR}/{i}/case.json"))
        return self.cache[("case", i)]
    def on(self, t, c):
        obj = t if c["obj"] == "table" else t.get_timeline()
        return self.forms(obj, c)[0][1]
    def faults(self, i, n):
        case = self.case_at(i); srv = self.store(); c = self.picked(case)[n]
        k = 0
        while k < 200:
            self.arm(fault=k)
            key = f"{case['name']}: {self.label(c)}: request {k} is denied"
            if self.wants(key):
                m = self.judge(c["want"], lambda: self.on(self.hudi.HudiTable(f"s3://b/{i}/table", srv.options()), c)(), fault=True)
                hit = self.n_req.value > k
                self.eval(key, hit)
                if m: self.violation(key, m)
                if not hit: break
                self.counts["faults"] += 1
            k += 1
            if ONLY and k > 60: break
    def pair(self, i, a, b, same):
        """Every schedule in which one call waits at some request while another runs from start to end."""
        case = self.case_at(i); srv = self.store(); cs = self.picked(case); ca, cb = cs[a], cs[b]
        k = 0
        while k < 200:
            key = f"{case['name']}: {self.label(ca)} waits at request {k} while {self.label(cb)} runs{'' if same else ' on another table object'}"
            if not self.wants(key):
                k += 1
                if k > 40: break
                continue
            self.arm()
            u = f"s3://b/{i}/table"
            t = self.hudi.HudiTable(u, srv.options())
            t2 = t if same else self.hudi.HudiTable(u, srv.options())
            fa, fb = self.on(t, ca), self.on(t2, cb)
            self.arm(hold=k)
            got = {}
            def run(name, c, f): got[name] = self.judge(c["want"], f)
            ta = threading.Thread(target=run, args=("first", ca, fa), daemon=True); ta.start()
            while ta.is_alive() and not self.held.wait(0.002): pass
            hit = self.held.is_set()
            tb = threading.Thread(target=run, args=("second", cb, fb), daemon=True)
            if hit:
                tb.start()
                # until it is done, or waits for the first one: no request for a while
                last, since = -1, time.time()
                while tb.is_alive() and time.time() - since < 0.08:
                    tb.join(0.004)
                    if self.n_req.value != last: last, since = self.n_req.value, time.time()
                if tb.is_alive(): self.counts["schedules in which the second waits for the first"] += 1
            self.release.set()
            ta.join(LIMIT - 20)
            if hit: tb.join(LIMIT - 20)
            self.eval(key, hit)
            if ta.is_alive() or (hit and tb.is_alive()): self.violation(key, f"a call does not return ({'first' if ta.is_alive() else 'second'})"); break
            for who, m in got.items():
                if m: self.violation(key, f"{who}: {m}")
            if not hit: break
            self.counts["schedules"] += 1
            k += 1

def work(tasks, out, beat, what, next_):
    os.dup2(os.open("/dev/null", os.O_WRONLY), 2)  # the text of panics
    w = Worker(out, beat)
    while FOUND.value < 20:
        with next_.get_lock(): i = next_.value; next_.value += 1
        if i >= len(tasks): break
        what.value = repr(tasks[i])[:200].encode(); beat.value = time.time()
        try: getattr(w, tasks[i][0])(*tasks[i][1:])
        except BaseException: w.violation(f"task {tasks[i]}", traceback.format_exc()[-1500:])
    if hasattr(w, "srv"): w.counts["requests let go late"] += w.late.value; w.srv.close()
    beat.value = float("inf")
    out.put(("D", w.n, w.nontrivial, w.counts, w.samples)); out.close(); out.join_thread(); os._exit(0)

def known():
    k = []
    for l in open(f"{VERIF}/known_findings.txt"):
        if l.startswith("known: property=C23 key="): k.append(l.split("key=", 1)[1].rstrip("\n").split(" ", 1))
    return k

def main():
    start = time.time()
    n = len(glob.glob(f"{DIR}/*/case.json"))
    names = [json.load(open(f"{DIR}/{i}/case.json"))["name"] for i in range(n)]
    def find(p): return [i for i in range(n) if names[i].startswith(p)]
    tasks = [("case", i) for i in range(n)]
    probe = Worker.__new__(Worker); probe.cache = {}
    big = [i for i in find("COW/3p") + find("MOR/3p")]
    for i in big:
        cs = probe.picked(probe.case_at(i))
        # an early few can wait: the others keep the interpreter to themselves
        free = [a for a, c in enumerate(cs) if c["m"].startswith("get_file_slices") or c["obj"] == "timeline" and c["m"] != "get_latest_schema" or c["m"] == "get_avro_schema"]
        tasks += [("faults", i, a) for a in range(len(cs))]
        for a in free:
            plain = [x for x in range(len(cs)) if THOROUGH or not any(k == "filters" for k, _ in cs[x]["args"] or [])]
            for b in plain if a in plain else []:
                if THOROUGH or i == big[-1]: tasks.append(("pair", i, a, b, True))
                if THOROUGH and i == big[0]: tasks.append(("pair", i, a, b, False))
    out = mp.Queue(); next_ = mp.Value("i", 0); ps = []
    for _ in range(os.cpu_count() or 4):
        beat = mp.Value("d", time.time()); what = mp.Array("c", 256)
        p = mp.Process(target=work, args=(tasks, out, beat, what, next_)); p.start(); ps.append((p, beat, what))
    done = 0; bad = []; total = nontrivial = 0; counts = collections.Counter(); samples = []; incomplete = None
    import queue
    lost = set()
    while done < len(ps) - len(lost):
        try:
            m = out.get(timeout=1)
            if m[0] == "V": bad.append((m[1], m[2]))
            else: done += 1; total += m[1]; nontrivial += m[2]; counts.update(m[3]); samples += m[4]
        except queue.Empty: pass
        for j, (p, beat, what) in enumerate(ps):
            if j in lost: continue
            w = what.value.decode(errors="replace")
            if p.is_alive() and time.time() - beat.value > LIMIT:
                bad.append((w, f"hang: no answer after {LIMIT} s in {w}")); p.kill(); lost.add(j)
            elif not p.is_alive() and p.exitcode != 0:
                bad.append((w, f"the interpreter died ({p.exitcode}) in {w}")); lost.add(j)
    kn = known(); met = collections.Counter(); rest = []
    for k, v in bad:
        for kk, text in kn:
            if k == kk: met[kk] += 1; break
        else: rest.append((k, v))
    for kk, text in kn:
        if met[kk]: print(f"KNOWN-FINDING: property=C23 {kk}: {text} (met {met[kk]} times in this run)")
    rest.sort(key=lambda x: len(x[0]) + len(x[1]))
    os.makedirs(f"{VERIF}/replays", exist_ok=True)
    for j, (k, v) in enumerate(rest[:20]):
        p = f"{VERIF}/replays/C23-{j}.json"
        json.dump({"property": "C23", "what": v, "key": k, "thorough": THOROUGH}, open(p, "w"), indent=1)
        print(f"VIOLATION property=C23 replay={p}")
        if j < 5: print(f"  {k}: {v}"[:3000])
    ev = {"property": "C23", "tier": TIER, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "exploration",
          "coverage": {"evaluations": total, "distinct_nontrivial": nontrivial,
                       "rule": "one case per table, way to open it, call and form of its arguments; per call and denied request; and per pair of calls and request at which the first waits; non-trivial: the answer is not empty, or the request is reached",
                       "samples": samples[:6], "exhaustive": not rest, "tables": n, "calls": dict(counts)},
          "assumptions": ["pyarrow reads Arrow IPC streams right"],
          "wall_s": round(time.time() - start, 3), "violations": len(rest)}
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    json.dump(ev, open(f"{VERIF}/evidence/C23.json", "w"), indent=1)
    print(f"C23 {TIER}: {total} evaluations, {nontrivial} non-trivial, {n} tables, {counts['schedules']} schedules, {counts['faults']} faults, {time.time()-start:.1f} s, {len(rest)} violations")
    sys.stdout.flush()
    os._exit(1 if rest else 0)
main()
