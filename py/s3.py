# A tiny read-only S3 endpoint on the loopback network over a local directory, for demonstrations:
# bucket "b" is the directory; `deny(kind, key)` decides which requests fail with 403.
import os, signal, threading, time
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from urllib.parse import urlparse, parse_qs, unquote
from xml.sax.saxutils import escape
class S3:
    def __init__(self, root, deny=lambda kind, key: False):
        outer = self; self.root = root; self.deny = deny; self.log = []
        class H(BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"; disable_nagle_algorithm = True; wbufsize = -1
            def log_message(self, *a): pass
            def send(self, code, body=b"", **h):
                self.send_response(code)
                for k, v in h.items(): self.send_header(k.replace("_", "-"), v)
                self.send_header("Content-Length", str(len(body)))
                self.end_headers()
                if self.command != "HEAD": self.wfile.write(body)
            def do_HEAD(self): self.do_GET()
            def do_GET(self):
                u = urlparse(self.path); q = parse_qs(u.query, keep_blank_values=True)
                key = unquote(u.path).lstrip("/").partition("/")[2]
                kind = "LIST" if "list-type" in q else self.command
                if kind == "LIST": key = q.get("prefix", [""])[0]
                outer.log.append((kind, key))
                if outer.deny(kind, key): return self.send(403, b"<Error><Code>AccessDenied</Code></Error>")
                if kind == "LIST": return self.send(200, outer.listing(key, q.get("delimiter", [""])[0]), Content_Type="application/xml")
                p = os.path.join(outer.root, key)
                if not os.path.isfile(p): return self.send(404, b"<Error><Code>NoSuchKey</Code></Error>")
                d = open(p, "rb").read(); n = len(d); code = 200; h = {}
                r = self.headers.get("Range")
                if r and self.command == "GET":
                    a, b = r.split("=")[1].split("-")
                    a, b = (n - int(b), n - 1) if a == "" else (int(a), min(int(b), n - 1) if b else n - 1)
                    d = d[a:b + 1]; code = 206; h["Content_Range"] = f"bytes {a}-{b}/{n}"
                self.send(code, d, Last_Modified="Mon, 01 Jan 2024 00:00:00 GMT", ETag='"1"', Accept_Ranges="bytes", **h)
        self.srv = ThreadingHTTPServer(("127.0.0.1", 0), H); self.srv.daemon_threads = True
        self.port = self.srv.server_address[1]
        # a process of its own: the binding may hold the interpreter lock while it waits for storage
        parent = os.getpid()
        self.pid = os.fork()
        if self.pid == 0:
            def watch():
                while os.getppid() == parent: time.sleep(0.2)
                os._exit(0)
            threading.Thread(target=watch, daemon=True).start()
            self.srv.serve_forever(); os._exit(0)
        self.srv.socket.close()
    def options(self):
        return {"aws_endpoint": f"http://127.0.0.1:{self.port}", "aws_allow_http": "true", "aws_skip_signature": "true",
                "aws_region": "us-east-1", "aws_access_key_id": "x", "aws_secret_access_key": "x"}
    def listing(self, prefix, delim):
        keys = []
        for d, _, fs in os.walk(self.root):
            for f in fs: keys.append(os.path.relpath(os.path.join(d, f), self.root))
        items, pre = [], set()
        for k in sorted(keys):
            if not k.startswith(prefix): continue
            rest = k[len(prefix):]
            if delim and delim in rest: pre.add(prefix + rest.split(delim)[0] + delim); continue
            items.append((k, os.path.getsize(os.path.join(self.root, k))))
        x = "".join(f"<Contents><Key>{escape(k)}</Key><LastModified>2024-01-01T00:00:00.000Z</LastModified><ETag>1</ETag><Size>{n}</Size></Contents>" for k, n in items)
        x += "".join(f"<CommonPrefixes><Prefix>{escape(p)}</Prefix></CommonPrefixes>" for p in sorted(pre))
        return ('<?xml version="1.0"?><ListBucketResult><IsTruncated>false</IsTruncated>' + x + "</ListBucketResult>").encode()
    def close(self): os.kill(self.pid, signal.SIGKILL); os.waitpid(self.pid, 0)
