"""P14: with an API key set, nothing but the liveness probes answers without it."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import asyncio
import random
from vlib import Check, parallel, run_main, scale, seed
import http_asgi as H
from pymllm.configs import get_global_config
L = H.L

c = Check("P14", "random requests to every route and to odd paths and methods with missing, wrong, near-miss, right and admin credentials, under random key configurations, through the whole ASGI app; "
          "an unauthorised request must get 401 and reach nothing, an authorised one must never get 401; non-trivial = distinct requests")
ROUTES = [("GET", "/model_info"), ("GET", "/server_info"), ("GET", "/v1/models"), ("GET", "/v1/models/served"), ("POST", "/generate"), ("PUT", "/generate"), ("POST", "/v1/completions"),
          ("POST", "/v1/chat/completions"), ("POST", "/flush_cache"), ("GET", "/flush_cache"), ("POST", "/abort_request"), ("GET", "/openapi.json"), ("GET", "/docs"), ("GET", "/redoc"),
          ("GET", "/health"), ("GET", "/health_generate"), ("GET", "/"), ("GET", "/nowhere"), ("OPTIONS", "/generate"), ("DELETE", "/v1/models"), ("HEAD", "/server_info")]
ODD = ["/health/", "//health", "/health/../server_info", "/health;x", "/Health", "/v1/models/health", "/health_generate/x", "/server_info/health", "/health%2f..%2fserver_info", "/health?x", "/health\x00"]
BODY = {"/generate": {"text": "x"}, "/v1/completions": {"prompt": "x"}, "/v1/chat/completions": {"messages": [{"role": "user", "content": "x"}]}, "/abort_request": {"rid": "r"}}
EXEMPT = {"/health", "/health_generate"}


def one(i):
    r = random.Random(seed() * 1000003 + i)
    cfg = get_global_config().server
    cfg.served_model_name, cfg.model_path, cfg.tokenizer_path, cfg.enable_debug_timing = "served", "m", "t", False
    key = r.choice([None, "k3y", "k3y", "sp ace", "Bearer", "é"])
    admin = r.choice([None, None, "adm1n", ""])
    cfg.api_key, cfg.admin_api_key = key, admin
    touched = []

    class E(H.Engine):
        def generate_async(self, **kw):
            touched.append("generate")
            return super().generate_async(**kw)

        async def abort_request(self, rid):
            touched.append("abort")
    L._engine = E(r, lambda p: ("out", "eos", 1, 1))
    L._tokenizer = None
    method, path = r.choice(ROUTES) if r.random() < .85 else (r.choice(["GET", "POST"]), r.choice(ODD))
    good = [f"Bearer {k}" for k in (key, admin) if k]
    bad = [None, "", "Bearer", "Bearer ", "bearer k3y", "Basic k3y", "k3y", "Bearer k3y ", "Bearer k3", "Bearer k3yx", "Bearer None", "Bearer  k3y", "Bearer K3Y", "BearerXk3y", "Bearer adm1", "Bearer \u00e8"]
    auth = r.choice(good) if good and r.random() < .4 else r.choice(bad)
    ok = key is None or path in EXEMPT or (auth in good)
    hs = [("Authorization", auth)] if auth is not None else []
    if r.random() < .2:
        hs.append(("X-Api-Key", key or "k"))
    host = r.choice([None, "localhost", "localhost", "h:8000", "x/health?", "x/health#", "x/health_generate?a=", "health", "@/health?", "x\\health?", "[::1]/health?"])
    if host is not None:
        hs.append(("Host", host))
    q = r.choice([b"", b"", b"api_key=k3y", b"access_token=k3y"])
    rep = {"case": i, "seed": seed(), "key": key, "admin": admin, "request": [method, path, auth]}
    rep["host"] = host
    try:
        st, hd, raw = asyncio.run(H.call(method, path, BODY.get(path) if method != "GET" else None, hs, query=q))
    except Exception as e:  # noqa: BLE001
        c.exception(e, "auth", rep)
        return
    c.case(repr(rep["request"] + [key, admin, host]), sample=[method, path, str(auth), st])
    c.observe("authorised" if ok else "unauthorised")
    if not ok:
        if st != 401:
            c.violation("let-in", f"{method} {path} with {auth!r} answered {st} (key {key!r}, admin {admin!r})", rep)
        if touched:
            c.violation("reached", f"unauthorised {method} {path} reached the engine: {touched}", rep)
        if b"served" in raw or b"k3y" in raw or b"adm1n" in raw:
            c.violation("leak", f"the refusal shows {raw[:100]}", rep)
    elif st == 401:
        c.violation("locked-out", f"{method} {path} with {auth!r} answered 401 (key {key!r}, admin {admin!r})", rep)
    elif (method, path) in ROUTES and path in BODY and method == "POST" and st != 200:
        c.violation("broken", f"authorised {method} {path} answered {st}: {raw[:100]}", rep)
    if path == "/server_info" and method == "GET" and st == 200 and any(k and len(k) > 3 and f'"{k}"'.encode() in raw for k in (key, admin)):
        c.violation("secret", "server_info shows a key", rep)


def main():
    parallel(c, one, scale(4000, 60000), workers=8)
    c.require("authorised", 500)
    c.require("unauthorised", 500)
    c.finish()


run_main(c, main)
