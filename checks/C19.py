"""C19: the sessions that serve Qwen3 on the device."""
import json
import os
import random
import shutil
import sys
import tempfile
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import cpp
from vlib import Check, run_main, scale, seed

c = Check("C19", "random tiny checkpoints, vocabularies and histories of requests (repeated, extended, altered, thinking or not, any max_length, failing receivers, at once through a service, malformed); "
          "text against the greedy continuation of the rendered prompt computed without a cache, allocated blocks against the prefix tree; prompts against the published template rendered by jinja2; ASan/UBSan; non-trivial = distinct session/cache/setting classes",
          ["Greedy decoding; float32 weights; x86 backend; probing without probes."])

TEMPLATE = r"""{%- if tools %}
    {{- '<|im_start|>system\n' }}
    {%- if messages[0].role == 'system' %}
        {{- messages[0].content + '\n\n' }}
    {%- endif %}
    {{- "# Tools\n\nYou may call one or more functions to assist with the user query.\n\nYou are provided with function signatures within <tools></tools> XML tags:\n<tools>" }}
    {%- for tool in tools %}
        {{- "\n" }}
        {{- tool | tojson }}
    {%- endfor %}
    {{- "\n</tools>\n\nFor each function call, return a json object with function name and arguments within <tool_call></tool_call> XML tags:\n<tool_call>\n{\"name\": <function-name>, \"arguments\": <args-json-object>}\n</tool_call><|im_end|>\n" }}
{%- else %}
    {%- if messages[0].role == 'system' %}
        {{- '<|im_start|>system\n' + messages[0].content + '<|im_end|>\n' }}
    {%- endif %}
{%- endif %}
{%- set ns = namespace(multi_step_tool=true, last_query_index=messages|length - 1) %}
{%- for message in messages[::-1] %}
    {%- set index = (messages|length - 1) - loop.index0 %}
    {%- if ns.multi_step_tool and message.role == "user" and message.content is string and not(message.content.startswith('<tool_response>') and message.content.endswith('</tool_response>')) %}
        {%- set ns.multi_step_tool = false %}
        {%- set ns.last_query_index = index %}
    {%- endif %}
{%- endfor %}
{%- for message in messages %}
    {%- if message.content is string %}
        {%- set content = message.content %}
    {%- else %}
        {%- set content = '' %}
    {%- endif %}
    {%- if (message.role == "user") or (message.role == "system" and not loop.first) %}
        {{- '<|im_start|>' + message.role + '\n' + content + '<|im_end|>' + '\n' }}
    {%- elif message.role == "assistant" %}
        {%- set reasoning_content = '' %}
        {%- if message.reasoning_content is string %}
            {%- set reasoning_content = message.reasoning_content %}
        {%- else %}
            {%- if '</think>' in content %}
                {%- set reasoning_content = content.split('</think>')[0].rstrip('\n').split('<think>')[-1].lstrip('\n') %}
                {%- set content = content.split('</think>')[-1].lstrip('\n') %}
            {%- endif %}
        {%- endif %}
        {%- if loop.index0 > ns.last_query_index %}
            {%- if loop.last or (not loop.last and reasoning_content) %}
                {{- '<|im_start|>' + message.role + '\n<think>\n' + reasoning_content.strip('\n') + '\n</think>\n\n' + content.lstrip('\n') }}
            {%- else %}
                {{- '<|im_start|>' + message.role + '\n' + content }}
            {%- endif %}
        {%- else %}
            {{- '<|im_start|>' + message.role + '\n' + content }}
        {%- endif %}
        {%- if message.tool_calls %}
            {%- for tool_call in message.tool_calls %}
                {%- if (loop.first and content) or (not loop.first) %}
                    {{- '\n' }}
                {%- endif %}
                {%- if tool_call.function %}
                    {%- set tool_call = tool_call.function %}
                {%- endif %}
                {{- '<tool_call>\n{"name": "' }}
                {{- tool_call.name }}
                {{- '", "arguments": ' }}
                {%- if tool_call.arguments is string %}
                    {{- tool_call.arguments }}
                {%- else %}
                    {{- tool_call.arguments | tojson }}
                {%- endif %}
                {{- '}\n</tool_call>' }}
            {%- endfor %}
        {%- endif %}
        {{- '<|im_end|>\n' }}
    {%- elif message.role == "tool" %}
        {%- if loop.first or (messages[loop.index0 - 1].role != "tool") %}
            {{- '<|im_start|>user' }}
        {%- endif %}
        {{- '\n<tool_response>\n' }}
        {{- content }}
        {{- '\n</tool_response>' }}
        {%- if loop.last or (messages[loop.index0 + 1].role != "tool") %}
            {{- '<|im_end|>\n' }}
        {%- endif %}
    {%- endif %}
{%- endfor %}
{%- if add_generation_prompt %}
    {{- '<|im_start|>assistant\n' }}
    {%- if enable_thinking is defined and enable_thinking is false %}
        {{- '<think>\n\n</think>\n\n' }}
    {%- endif %}
{%- endif %}"""


def cases(path):

    from jinja2.sandbox import ImmutableSandboxedEnvironment
    env = ImmutableSandboxedEnvironment(trim_blocks=True, lstrip_blocks=True)
    # What JSON text the arguments have is left to the writer: they are integers' and words' lists without spaces in both
    env.filters["tojson"] = lambda x: json.dumps(x, ensure_ascii=False, sort_keys=True, separators=(",", ":"))
    t = env.from_string(TEMPLATE)
    r = random.Random(seed() * 31 + 19)
    words = ["hello", "a\nb", "\nlead", "trail\n", "\n\n", "", " spaced ", "é你", "{x}", "line1\n\nline2"]

    def thought():
        b = r.choice(words)
        return r.choice(["<think>\n%s\n</think>\n\n%s", "<think>%s</think>%s", "%s\n</think>\n\n%s", "<think>\n\n</think>\n\n%s%s"]) % (b, r.choice(words))
    n = 0
    with open(path, "w") as f:
        for _ in range(scale(1500, 30000)):
            ms, kinds = [], set()
            if r.random() < .3:
                ms.append({"role": "system", "content": r.choice(words)})
            for _ in range(r.randint(0 if ms else 1, 6)):
                k = r.random()
                if k < .4:
                    ms.append({"role": "user", "content": r.choice(words)})
                    if r.random() < .12:
                        ms[-1]["content"] = "<tool_response>" + r.choice(words + ["</tool_response>"]) + r.choice(["</tool_response>", "</tool_response>x"])
                        kinds.add("response in user")
                elif k < .75:
                    m = {"role": "assistant", "content": r.choice(words)}
                    if r.random() < .4:
                        m["content"] = thought()
                        kinds.add("thought")
                    if r.random() < .2:
                        m["reasoning_content"] = r.choice(words)
                        kinds.add("reasoning")
                    if r.random() < .25:
                        m["tool_calls"] = []
                        for _ in range(r.randint(0, 2)):
                            fn = {"name": r.choice(["f", "get_x"]), "arguments": r.choice(['{"a": 1}', {"a": 1, "b": "é"}, {}])}
                            m["tool_calls"].append({"type": "function", "function": fn} if r.random() < .6 else fn)
                        kinds.add("calls")
                        if r.random() < .3:
                            m["content"] = None
                    ms.append(m)
                elif k < .9:
                    ms.append({"role": "tool", "content": r.choice(words)})
                    kinds.add("tool")
                else:
                    ms.append({"role": "system", "content": r.choice(words)})
                    kinds.add("system")
            tools = [{"type": "function", "function": {"name": "f", "parameters": {"n": i}}} for i in range(r.randint(1, 2))] if r.random() < .2 else []
            prompt, think = r.random() < .8, r.random() < .5
            want = t.render(messages=ms, tools=tools, add_generation_prompt=prompt, enable_thinking=think)
            kinds |= {"tools"} if tools else set()
            f.write(json.dumps({"messages": ms, "tools": tools, "prompt": prompt, "think": think, "want": want, "class": ",".join(sorted(kinds)) or "plain"}) + "\n")
            n += 1


def main():
    b = cpp.Build("C19", san="asan", opt="-O1")
    exe = b.build(cpp.runtime() + cpp.expand(["mllm/models/ARGeneration.cpp"]), ["c19_session.cpp"], focus=r"models/ARGeneration|prefix_cache|engine/service")
    d = tempfile.mkdtemp(prefix="c19_")
    try:
        cases(os.path.join(d, "templates"))
        cpp.run(c, exe, args=[d, os.path.join(d, "templates")], timeout=scale(100, 600), label="templates")
        cpp.run(c, exe, args=[d], timeout=scale(250, 2400), label="sessions")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for k, n in {"answers": 400, "new": 80, "partly cached": 200, "prompt wholly cached": 20, "no_tokens": 15, "ended": 60, "characters": 60, "concurrent": 80, "malformed": 16, "receiver_failed": 12, "templates": 2000, "plain": 40, "probing": 15}.items():
        c.require(k, n)
    c.finish()


run_main(c, main)
