"""A small LSP client for the demonstrations: drives target/debug/jinja-lsp over stdio in a scratch directory."""
import json, os, queue, shutil, subprocess, tempfile, threading, time


class Lsp:
    def __init__(self, files=None, options=None, client=None):
        exe = os.path.abspath("target/debug/jinja-lsp")
        self.dir = tempfile.mkdtemp(prefix="jl")
        os.makedirs(self.dir + "/t")
        os.makedirs(self.dir + "/s")
        for f, s in (files or {}).items():
            p = os.path.join(self.dir, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(s)
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=self.dir)
        self.q, self.n, self.diags, self.logs = queue.Queue(), 0, {}, []
        threading.Thread(target=self._read, daemon=True).start()
        if options is None:
            options = {}
        opts = {"templates": self.dir + "/t", "backend": [self.dir + "/s"], "lang": "rust"}
        opts.update(options)
        self.call("initialize", {"capabilities": {}, "processId": None, "rootUri": None, "initializationOptions": opts,
                                 **({"clientInfo": {"name": client}} if client else {})})
        self.send("initialized", {})
        self.settle()

    def _read(self):
        while True:
            n = None
            while True:
                l = self.p.stdout.readline()
                if not l:
                    self.q.put(None)
                    return
                l = l.strip()
                if not l:
                    break
                if l.lower().startswith(b"content-length:"):
                    n = int(l.split(b":")[1])
            self.q.put(json.loads(self.p.stdout.read(n)))

    def _write(self, m):
        m["jsonrpc"] = "2.0"
        b = json.dumps(m).encode()
        self.p.stdin.write(b"Content-Length: %d\r\n\r\n" % len(b) + b)
        self.p.stdin.flush()

    def send(self, method, params):
        self._write({"method": method, "params": params})

    def _take(self, timeout):
        m = self.q.get(timeout=timeout)
        if m is None:
            raise RuntimeError("the server died")
        if m.get("method") == "textDocument/publishDiagnostics":
            self.diags[m["params"]["uri"]] = m["params"]["diagnostics"]
        elif m.get("method") == "window/logMessage":
            self.logs.append(m["params"]["message"])
        return m

    def call(self, method, params, timeout=10):
        self.n += 1
        n = self.n
        self._write({"id": n, "method": method, "params": params})
        end = time.time() + timeout
        while True:
            m = self._take(max(0.01, end - time.time()))
            if m.get("id") == n and "method" not in m:
                return m.get("result")

    def settle(self, t=0.4):
        """collect what the server sends on its own"""
        while True:
            try:
                self._take(t)
            except queue.Empty:
                return

    def uri(self, f):
        return "file://" + os.path.join(self.dir, f)

    def open(self, f, text):
        self.send("textDocument/didOpen", {"textDocument": {"uri": self.uri(f), "languageId": "jinja", "version": 1, "text": text}})
        self.settle()
        return self.errors(f)

    def errors(self, f):
        """(message, start, end) of the last published diagnostics"""
        d = self.diags.get(self.uri(f))
        return None if d is None else sorted((x["message"], *self._r(x["range"])) for x in d)

    @staticmethod
    def _r(r):
        return (r["start"]["line"], r["start"]["character"]), (r["end"]["line"], r["end"]["character"])

    def change(self, f, *changes):
        """changes: (start, end, text) or a whole text"""
        c = [{"text": x} if isinstance(x, str) else
             {"range": {"start": {"line": x[0][0], "character": x[0][1]}, "end": {"line": x[1][0], "character": x[1][1]}}, "text": x[2]}
             for x in changes]
        self.send("textDocument/didChange", {"textDocument": {"uri": self.uri(f), "version": 2}, "contentChanges": c})
        self.settle(0.6)
        return self.errors(f)

    def save(self, f):
        self.send("textDocument/didSave", {"textDocument": {"uri": self.uri(f)}})
        self.settle()
        return self.errors(f)

    def at(self, method, f, line, col, **more):
        return self.call("textDocument/" + method, {"textDocument": {"uri": self.uri(f)}, "position": {"line": line, "character": col}, **more})

    def hover(self, f, line, col):
        r = self.at("hover", f, line, col)
        return r and r["contents"]["value"]

    def goto(self, f, line, col):
        r = self.at("definition", f, line, col)
        r = [] if r is None else [r] if isinstance(r, dict) else r
        return sorted((x["uri"].replace("file://" + self.dir + "/", ""), *self._r(x["range"])) for x in r)

    def complete(self, f, line, col):
        r = self.at("completion", f, line, col, context={"triggerKind": 1})
        return r or []

    def labels(self, f, line, col):
        return sorted(x["label"] for x in self.complete(f, line, col))

    def symbols(self, f):
        r = self.call("textDocument/documentSymbol", {"textDocument": {"uri": self.uri(f)}})
        return r and sorted((x["name"], x["kind"], *self._r(x["range"])) for x in r)

    def actions(self, f, line, col):
        p = {"line": line, "character": col}
        return self.call("textDocument/codeAction", {"textDocument": {"uri": self.uri(f)}, "range": {"start": p, "end": p}, "context": {"diagnostics": []}}) or []

    def close(self):
        self.p.kill()
        self.p.wait()
        shutil.rmtree(self.dir)


def expect(got, want, what):
    if got != want:
        print("FAILED: %s\n  got  %r\n  want %r" % (what, got, want))
        os._exit(1)
    print("ok:", what)
