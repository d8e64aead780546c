"""Writes small Hudi tables into a scratch folder, for demonstrations through the Python binding."""
import json, os, shutil, struct, sys, tempfile
sys.path.insert(0, os.path.join(os.getcwd(), "python"))
sys.dont_write_bytecode = True
import pyarrow as pa, pyarrow.parquet as pq
from hudi import HudiTable  # noqa

META = ["_hoodie_commit_time", "_hoodie_commit_seqno", "_hoodie_record_key", "_hoodie_partition_path", "_hoodie_file_name"]

class T:
    def __init__(self, mor=False, part="part", **props):
        self.dir = tempfile.mkdtemp(prefix="seed-demo-")
        self.part = part
        os.makedirs(self.dir + "/.hoodie")
        p = {"hoodie.table.name": "t", "hoodie.table.type": "MERGE_ON_READ" if mor else "COPY_ON_WRITE",
             "hoodie.table.version": "6", "hoodie.timeline.layout.version": "1",
             "hoodie.table.base.file.format": "PARQUET", "hoodie.table.recordkey.fields": "id",
             "hoodie.table.precombine.field": "ord", "hoodie.datasource.write.drop.partition.columns": "false",
             "hoodie.datasource.write.hive_style_partitioning": "true", "hoodie.datasource.write.partitionpath.urlencode": "false"}
        if part:
            p["hoodie.table.partition.fields"] = part
        p.update({k.replace("__", "."): v for k, v in props.items()})
        p = {k: v for k, v in p.items() if v is not None}
        with open(self.dir + "/.hoodie/hoodie.properties", "w") as f:
            f.write("#Properties\n" + "".join(f"{k}={v}\n" for k, v in p.items()))

    def __enter__(self):
        return self
    def __exit__(self, *a):
        shutil.rmtree(self.dir)

    def put(self, rel, data):
        p = os.path.join(self.dir, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)

    def arrow(self, rows, ts, part, name, schema=None):
        n = len(rows)
        cols = {META[0]: pa.array([r.get("ct", ts) for r in rows], pa.string()),
                META[1]: pa.array([f"{r.get('ct', ts)}_0_{i}" for i, r in enumerate(rows)], pa.string()),
                META[2]: pa.array([r["id"] for r in rows], pa.string()),
                META[3]: pa.array([part] * n, pa.string()), META[4]: pa.array([name] * n, pa.string())}
        for k, t in (schema or [("id", pa.string()), ("val", pa.int64()), ("ord", pa.int64())] + ([(self.part, pa.string())] if self.part else [])):
            cols[k] = pa.array([r.get(k, part.split("=")[-1] if k == self.part else None) for r in rows], t)
        return pa.table(cols)

    def base(self, fid, part, ts, rows, schema=None, token="0-1-1"):
        name = f"{fid}_{token}_{ts}.parquet"
        rel = f"{part}/{name}" if part else name
        os.makedirs(os.path.join(self.dir, part), exist_ok=True)
        pq.write_table(self.arrow(rows, ts, part, name, schema), os.path.join(self.dir, rel))
        if part:
            self.put(f"{part}/.hoodie_partition_metadata", b"commitTime=1\npartitionDepth=1\n")
        return {"fileId": fid, "path": rel, "prevCommit": "null"}

    def log(self, fid, part, base_ts, version, blocks, token="0-1-1", logs=None):
        """blocks: bytes from data()/rollback()"""
        name = f".{fid}_{base_ts}.log.{version}_{token}"
        rel = f"{part}/{name}" if part else name
        self.put(rel, b"".join(blocks))
        return {"fileId": fid, "path": rel, "prevCommit": base_ts, "baseFile": f"{fid}_0-1-1_{base_ts}.parquet", "logFiles": (logs or []) + [name], "_name": name}

    def data(self, ts, part, fid, rows):
        import io
        b = io.BytesIO()
        pq.write_table(self.arrow(rows, ts, part, fid), b)
        return block(5, [(0, ts), (2, self.avro())], b.getvalue())
    def avro_data(self, ts, part, fid, rows):
        fs = [r for r in rows]
        out = struct.pack(">II", 3, len(fs))
        for i, r in enumerate(fs):
            d = b"".join(s(x) for x in (r.get("ct", ts), f"{ts}_0_{i}", r["id"], part, fid, r["id"])) + l(r.get("val")) + l(r.get("ord"))
            if self.part:
                d += s(part.split("=")[-1])
            out += struct.pack(">I", len(d)) + d
        return block(3, [(0, ts), (2, self.avro())], out)
    def avro(self):
        f = [(m, "string") for m in META] + [("id", "string"), ("val", "long"), ("ord", "long")] + ([(self.part, "string")] if self.part else [])
        return json.dumps({"type": "record", "name": "r", "fields": [{"name": n, "type": ["null", t], "default": None} for n, t in f]})

    def commit(self, ts, stats, kind="commit", op="UPSERT", replaced=None, state="", schema=None):
        per = {}
        for st in stats:
            st = {k: v for k, v in st.items() if k != "_name"}
            per.setdefault(os.path.dirname(st["path"]), []).append(st)
        c = {"partitionToWriteStats": per, "compacted": False, "operationType": op, "extraMetadata": {} if schema is None else {"schema": schema}}
        if replaced is not None:
            c["partitionToReplaceFileIds"] = replaced
        mid = "" if kind == "commit" else kind + "."
        self.put(f".hoodie/{ts}.{kind}.requested", b"")
        self.put(f".hoodie/{ts}.{mid}inflight", b"")
        if state == "":
            self.put(f".hoodie/{ts}.{kind}", json.dumps(c).encode())

    def open(self, **o):
        return HudiTable(self.dir, {k.replace("__", "."): v for k, v in o.items()})

def vlong(v):
    z = ((v << 1) ^ (v >> 63)) & (2**64 - 1)
    o = b""
    while z >= 0x80:
        o += bytes([z & 0x7F | 0x80]); z >>= 7
    return o + bytes([z])
def l(v):
    return b"\x00" if v is None else b"\x02" + vlong(v)
def s(v):
    return b"\x02" + vlong(len(v.encode())) + v.encode()
def block(ty, header, content):
    body = struct.pack(">III", 1, ty, len(header))
    for k, v in header:
        v = v.encode(); body += struct.pack(">II", k, len(v)) + v
    body += struct.pack(">Q", len(content)) + content + struct.pack(">I", 0)
    n = len(body) + 8
    return b"#HUDI#" + struct.pack(">Q", n) + body + struct.pack(">Q", n + 14)
def rollback(ts, target):
    return block(0, [(0, ts), (1, target), (3, "0")], b"")

def rows(batches, *cols):
    out = []
    for b in batches:
        d = b.to_pydict()
        out += list(zip(*[d[c] for c in cols])) if cols else []
    return sorted(out, key=str)

def expect(what, got, want):
    if got != want:
        print(f"FAIL {what}: {got!r}, expected {want!r}")
        sys.exit(1)
