"""Drives the real FastAPI app without sockets, with a scripted engine."""
import asyncio
import json
import vlib
vlib.setup_python_repo()
import warnings
warnings.filterwarnings("ignore")
import pymllm.server.launch as L


async def call(method, path, body=None, headers=(), raw=None, query=b""):
    """One request through the whole ASGI app; returns (status, headers, body bytes)."""
    data = raw if raw is not None else (json.dumps(body).encode() if body is not None else b"")
    hs = [(k.lower().encode(), v.encode("latin-1")) for k, v in headers]
    if body is not None or raw is not None:
        hs.append((b"content-type", b"application/json"))
    scope = {"type": "http", "asgi": {"version": "3.0", "spec_version": "2.3"}, "http_version": "1.1", "method": method, "scheme": "http",
             "path": path, "raw_path": path.encode(), "query_string": query, "root_path": "", "headers": hs,
             "client": ("127.0.0.1", 1), "server": ("127.0.0.1", 80), "state": {}}
    sent, done = [], asyncio.Event()
    first = True

    async def receive():
        nonlocal first
        if first:
            first = False
            return {"type": "http.request", "body": data, "more_body": False}
        await done.wait()
        return {"type": "http.disconnect"}

    async def send(m):
        sent.append(m)
        if m["type"] == "http.response.body" and not m.get("more_body"):
            done.set()
    await L.app(scope, receive, send)
    start = next(m for m in sent if m["type"] == "http.response.start")
    return start["status"], {k.decode(): v.decode() for k, v in start["headers"]}, b"".join(m.get("body", b"") for m in sent if m["type"] == "http.response.body")


def sse(body):
    """Events of a server-sent event stream: (list of JSON objects, ended with [DONE], malformed parts)."""
    evs, done, bad = [], False, []
    for part in body.decode().split("\n\n"):
        if not part:
            continue
        if not part.startswith("data: ") or done:
            bad.append(part)
        elif part == "data: [DONE]":
            done = True
        else:
            try:
                evs.append(json.loads(part[6:]))
            except ValueError:
                bad.append(part)
    return evs, done, bad


class Engine:
    """Scripted stand-in for the engine: `outputs` maps a prompt to (text, reason, prompt tokens, completion tokens)."""
    is_healthy = True

    def __init__(self, rng, outputs, fail=None):
        self.rng, self.outputs, self.fail = rng, outputs, fail
        self.calls, self.aborts = [], []
        self.open = 0
        self._rr_process = self

    def shutdown(self):
        pass

    async def abort_request(self, rid):
        self.aborts.append(rid)

    def chunks(self, rid, prompt, stream):
        text, reason, pt, ct = self.outputs(prompt)
        out, at = [], 0
        while stream and at < len(text):
            n = self.rng.choice([0, 1, 1, 2, 3, 5, 8, 40])
            out.append(dict(rid=rid, delta=text[at:at + n], text=text[:at + n], finished=False, finished_reason=None, prompt_tokens=pt, completion_tokens=min(ct, len(out) + 1)))
            at += n
        last = out.pop()["delta"] if out and self.rng.random() < .5 else ""
        if not stream:
            last = text
        out.append(dict(rid=rid, delta=last, text=text, finished=True, finished_reason=reason, prompt_tokens=pt, completion_tokens=ct))
        return out

    async def generate_async(self, **kw):
        self.calls.append(kw)
        self.open += 1
        try:
            if self.fail is not None and self.fail[0] == 0:
                raise self.fail[1]
            prompt = kw.get("prompt") if kw.get("prompt") is not None else kw.get("input_ids")
            batch = isinstance(prompt, list) and not (prompt and isinstance(prompt[0], int))
            rids = kw.get("rid") or L.Engine._make_rids(None, kw.get("prompt"), kw.get("input_ids"))
            todo = [self.chunks(r, p, kw.get("stream")) for r, p in zip(rids, prompt)] if batch else [self.chunks(rids if isinstance(rids, str) else rids[0], prompt, kw.get("stream"))]
            k = 0
            while any(todo):
                q = self.rng.choice([t for t in todo if t])
                if self.rng.random() < .2:
                    await asyncio.sleep(0)
                if self.fail is not None and k == self.fail[0]:
                    raise self.fail[1]
                k += 1
                yield q.pop(0)
        finally:
            self.open -= 1
