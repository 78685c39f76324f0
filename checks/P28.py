"""P28: a client that goes away stops its request; one that stays gets everything."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import json
import random
import shutil
import socket
import threading
import time
import warnings
warnings.filterwarnings("ignore")
import vlib
from backend import DIR, engine
from vlib import Check, parallel_fresh, run_main, scale, seed
import uvicorn
import pymllm.server.launch as L
from pymllm.configs import get_global_config

c = Check("P28", "concurrent HTTP clients over real sockets on the real server (uvicorn) and engine front end with a scripted backend; clients read to the end or hang up at a random moment "
          "(streaming or not, every endpoint, single and batched); every request of a client that left must be aborted at the backend soon after, no other may be; non-trivial = distinct client sets")


class Srv(uvicorn.Server):
    def install_signal_handlers(self):
        pass


def client(port, x):
    s = socket.create_connection(("127.0.0.1", port), timeout=30)
    try:
        b = json.dumps(x["body"]).encode()
        s.sendall(f"POST {x['path']} HTTP/1.1\r\nHost: a\r\nConnection: close\r\nContent-Type: application/json\r\nContent-Length: {len(b)}\r\n\r\n".encode() + b)
        end = time.time() + x["leave"] if x["leave"] is not None else None
        got = b""
        while True:
            if end is not None:
                left = end - time.time()
                if left <= 0:
                    break
                s.settimeout(left)
            try:
                d = s.recv(65536)
            except socket.timeout:
                break
            if not d:
                x["complete"] = True
                break
            got += d
        x["got"] = got
    finally:
        x["left_at"] = time.time()
        s.close()


def one(i):
    r = random.Random(seed() * 1000003 + i)
    cfg = get_global_config().server
    cfg.served_model_name, cfg.model_path, cfg.tokenizer_path, cfg.api_key = "served", "m", "/nonexistent", r.choice([None, None])
    cfg.reasoning_parser = cfg.tool_call_parser = None
    cfg.max_queued_requests = None
    e, rr, be = engine(i)

    class Plain:            # the scripted backend understands scripts, not sampling parameters
        is_healthy, _rr_process = True, rr

        def generate_async(self, **kw):
            n = len(kw["prompt"]) if isinstance(kw["prompt"], list) else 0
            sc = [{"script": scripts[p.split("\n")[1].split("<")[0] if "im_start" in p else p]} for p in (kw["prompt"] if n else [kw["prompt"]])]
            kw["sampling_params"] = sc if n else sc[0]
            return e.generate_async(**kw)

        def shutdown(self):
            pass
    L.app.state.engine = Plain()
    scripts, xs = {}, []
    for k in range(r.randrange(3, 10)):
        n = r.choice([0, 0, 2, 3])
        path = r.choice(["/generate", "/v1/completions", "/v1/chat/completions"])
        if path.endswith("chat/completions"):
            n = 0
        ps = [f"c{k}.{j}" for j in range(n or 1)]
        long = r.random() < .6
        for p in ps:
            scripts[p] = (120, 0.1) if long else (r.choice([0, 3, 10]), r.choice([0, 0.002]))
        body = {"stream": r.random() < .6}
        if path == "/generate":
            body["text"] = ps if n else ps[0]
        elif path == "/v1/completions":
            body["prompt"] = ps if n else ps[0]
        else:
            body["messages"] = [{"role": "user", "content": ps[0]}]
        xs.append(dict(path=path, body=body, prompts=ps, long=long, leave=r.choice([0.05, 0.2, 0.5]) if long else r.choice([None, None, None, 0.5])))
    rep = {"case": i, "seed": seed(), "clients": [dict(x) for x in xs], "scripts": scripts}
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    srv = Srv(uvicorn.Config(L.app, log_level="critical", loop="uvloop", timeout_graceful_shutdown=1))
    st = threading.Thread(target=lambda: srv.run(sockets=[s]), daemon=True)
    st.start()
    while not srv.started:
        time.sleep(0.01)
    ts = [threading.Thread(target=client, args=(s.getsockname()[1], x)) for x in xs]
    for t in ts:
        t.start()
    for t in ts:
        t.join(40)
    # a client that left must have its requests aborted; allow twice the polling interval and slack
    text_of = lambda m: str(m.get("text")).split("\n")[1].split("<")[0] if "im_start" in str(m.get("text")) else m.get("text")  # noqa: E731
    want = [p for x in xs if x["long"] for p in x["prompts"]]
    until = time.time() + 6
    while time.time() < until:
        by = {text_of(m): m["rid"] for m in be.log if not m.get("abort")}
        ab = {m["rid"] for m in be.log if m.get("abort")}
        if all(by.get(p) in ab for p in want):
            break
        time.sleep(0.02)
    by = {text_of(m): m["rid"] for m in be.log if not m.get("abort")}
    ab = {m["rid"] for m in be.log if m.get("abort")}
    for x in xs:
        c.observe("clients")
        c.seen("kinds", (x["path"], x["body"]["stream"], len(x["prompts"]) > 1, x["long"]))
        for p in x["prompts"]:
            rid = by.get(p)
            if rid is None:
                if not (x["long"] and x["leave"] < 0.3):
                    c.violation("never-sent", f"request {p} never reached the backend", rep)
            elif x["long"]:
                c.observe("left")
                if rid not in ab:
                    c.violation(f"not-aborted:{x['path']}:{'stream' if x['body']['stream'] else 'plain'}", f"the client of {p} left after {x['leave']} s, the request was still not aborted 6 s later", rep)
            elif x.get("complete") and rid in ab:
                c.violation("aborted", f"the client of {p} stayed to the end, yet its request was aborted", rep)
        if not x["long"] and x["leave"] is None:
            c.observe("stayed")
            for p in x["prompts"]:
                sc = scripts[p][0]
                full = x["body"].get("text") or x["body"].get("prompt")
                mark = f"/{sc}" if x["body"]["stream"] else f":{sc}"
                if not x.get("complete") or mark.encode() not in x.get("got", b""):
                    c.violation("cut", f"the client of {p} stayed but got {x.get('got', b'')[-200:]} ({full is not None})", rep)
    time.sleep(0.05)
    left = [k for k in rr._rid_to_state]
    if left and all(by.get(p) in ab for p in want):
        c.violation("state-left", f"states {left[:4]} remain after every client has left", rep)
    c.case(repr([(x["path"], x["body"], x["leave"]) for x in xs]), sample=[(x["path"], x["leave"]) for x in xs][:4])
    srv.should_exit = True
    st.join(5)
    be.stopping = True
    be.join(5)


def main():
    try:
        parallel_fresh(c, one, scale(16, 400))
    finally:
        shutil.rmtree(DIR, ignore_errors=True)
    c.require("left", 20)
    c.require("stayed", 5)
    c.finish()


run_main(c, main)
