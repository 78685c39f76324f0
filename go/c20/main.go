// C20: the on-device HTTP server (mllm-cli/pkg/server), its session binding
// (mllm-cli/mllm) and the C interface below it, driven over real connections
// with scripted sessions in place of models.
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"mllm-cli/mllm"
	pkgmllm "mllm-cli/pkg/mllm"
	"mllm-cli/pkg/server"

	probe "vh20probe"
)

var (
	out   *os.File
	outMu sync.Mutex
	nseen = map[string]int{}
)

func clean(s string) string {
	s = strings.ToValidUTF8(s, "?")
	return strings.NewReplacer("\t", " ", "\n", " ", "\r", " ").Replace(s)
}
func line(f ...string) {
	outMu.Lock()
	defer outMu.Unlock()
	for i := range f {
		f[i] = clean(f[i])
	}
	fmt.Fprintln(out, strings.Join(f, "\t"))
}
func violation(sig, msg, detail string) {
	outMu.Lock()
	n := nseen[sig]
	nseen[sig]++
	outMu.Unlock()
	if n < 5 {
		if len(detail) > 1500 {
			detail = detail[:1500]
		}
		line("V", sig, msg, detail)
	}
}
func observe(k string, n int) { line("O", k, strconv.Itoa(n)) }
func kase(k string)           { line("C", k) }

// ---------------------------------------------------------------------------
type script struct {
	Tokens  []string `json:"tokens"`
	Echo    bool     `json:"echo,omitempty"`
	ThrowAt *int     `json:"throw_at,omitempty"`
	NoLast  bool     `json:"no_last,omitempty"`
	Delay   int      `json:"delay_us,omitempty"`
	What    string   `json:"what,omitempty"`
}

type answer struct {
	status  int
	ctype   string
	body    string // when not a stream
	chunks  []map[string]any
	content []string
	done    int
	after   int // events after [DONE]
	reasons []string
	bad     string
	err     error
}

var base string
var client = &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 64}}

func post(ctx context.Context, body []byte, stopAfter int) (a answer) {
	req, _ := http.NewRequestWithContext(ctx, "POST", base+"/v1/chat/completions", bytes.NewReader(body))
	req.Header.Set("Content-Type", "application/json")
	resp, err := client.Do(req)
	if err != nil {
		a.err = err
		return
	}
	defer resp.Body.Close()
	a.status = resp.StatusCode
	a.ctype = resp.Header.Get("Content-Type")
	if a.status != 200 {
		b, e := io.ReadAll(resp.Body)
		a.body, a.err = string(b), e
		return
	}
	rd := bufio.NewReader(resp.Body)
	var data []string
	for {
		l, err := rd.ReadString('\n')
		if err != nil {
			if err != io.EOF {
				a.err = err
			} else if l != "" || len(data) > 0 {
				a.bad = "the stream ends within an event"
			}
			return
		}
		l = strings.TrimRight(l, "\r\n")
		if l != "" {
			if !strings.HasPrefix(l, "data:") {
				a.bad = "not an event: " + l
				continue
			}
			data = append(data, strings.TrimPrefix(strings.TrimPrefix(l, "data:"), " "))
			continue
		}
		if len(data) == 0 {
			continue
		}
		ev := strings.Join(data, "\n")
		data = nil
		if a.done > 0 {
			a.after++
		}
		if ev == "[DONE]" {
			a.done++
			continue
		}
		var c map[string]any
		if json.Unmarshal([]byte(ev), &c) != nil {
			a.bad = "an event is not JSON: " + ev
			continue
		}
		a.chunks = append(a.chunks, c)
		ch, _ := c["choices"].([]any)
		if len(ch) != 1 {
			a.bad = "an event has no choice: " + ev
			continue
		}
		c0, _ := ch[0].(map[string]any)
		d, _ := c0["delta"].(map[string]any)
		s, _ := d["content"].(string)
		if r, ok := c0["finish_reason"].(string); ok && r != "" {
			a.reasons = append(a.reasons, r)
		}
		a.content = append(a.content, s)
		if stopAfter > 0 && len(a.content) >= stopAfter {
			return
		}
	}
}

func request(model, id string, s script, extra map[string]any) []byte {
	m := map[string]any{"model": model, "vh": s, "messages": []any{map[string]any{"role": "user", "content": "hello"}}}
	if id != "" {
		m["id"] = id
	}
	for k, v := range extra {
		m[k] = v
	}
	b, _ := json.Marshal(m)
	return b
}

func num(a answer) string { return fmt.Sprintf("status %d, err %v, events %q, reasons %q, done %d", a.status, a.err, a.content, a.reasons, a.done) }

// A whole answer to a script: its tokens once, in order, and an end.
func whole(kind string, a answer, s script, id string, skip int) bool {
	ok := true
	v := func(sig, msg string) {
		violation(sig+":"+kind, msg, num(a)+fmt.Sprintf(" for %+v", s))
		ok = false
	}
	if a.err != nil || a.status != 200 {
		v("refused", fmt.Sprintf("a valid request is not answered (%s): status %d %s %v", kind, a.status, strings.TrimSpace(a.body), a.err))
		return false
	}
	if a.bad != "" {
		v("stream", "the event stream is malformed: "+a.bad)
	}
	if !strings.HasPrefix(a.ctype, "text/event-stream") {
		v("ctype", "the stream is not declared as one: "+a.ctype)
	}
	if a.done != 1 || a.after != 0 {
		v("done", fmt.Sprintf("the stream has %d end marks and %d events after the first", a.done, a.after))
	}
	want := s.Tokens
	failed := s.NoLast
	if s.ThrowAt != nil && *s.ThrowAt <= len(want) {
		want = want[:*s.ThrowAt]
		failed = true
	}
	got := a.content
	if skip > len(got) {
		skip = len(got)
	}
	got = got[skip:]
	// Chunks that only tell of the end carry no text.
	if strings.Join(got, "") != strings.Join(want, "") {
		v("content", fmt.Sprintf("the client got %q, the model gave %q", got, want))
	}
	if failed && (len(a.reasons) != 1 || a.reasons[0] == "stop") {
		v("failure-hidden", fmt.Sprintf("an answer that failed ends as if it were whole (finish reasons %q)", a.reasons))
	}
	if !failed && len(a.reasons) > 1 {
		v("ends", fmt.Sprintf("several finish reasons: %q", a.reasons))
	}
	if !failed && len(a.reasons) == 1 && a.reasons[0] != "stop" {
		v("ends", fmt.Sprintf("a whole answer ends with %q", a.reasons))
	}
	ids := map[string]bool{}
	for _, c := range a.chunks {
		s, _ := c["id"].(string)
		ids[s] = true
	}
	if len(ids) > 1 || ids[""] || (id != "" && len(ids) == 1 && !ids[id]) {
		v("ids", fmt.Sprintf("the events of one answer (request id %q) carry the ids %v", id, ids))
	}
	observe("events", len(a.chunks))
	return ok
}

func tokens(r *rand.Rand, n int) []string {
	words := []string{"a", " the", "é", "中文", "\n", "\r\n", "data: x\n\n", "[DONE]", "\"", "\\", "<b>&", "\u2028", "😀", " ", "{}", "\x01", "null"}
	t := make([]string, n)
	for i := range t {
		t[i] = words[r.Intn(len(words))]
		if r.Intn(3) == 0 {
			t[i] += strconv.Itoa(r.Intn(1000))
		}
	}
	return t
}

var hangs atomic.Int32

func bounded(what string, d time.Duration, f func()) bool {
	ch := make(chan struct{})
	go func() { f(); close(ch) }()
	select {
	case <-ch:
		return true
	case <-time.After(d):
		violation("hang:"+what, fmt.Sprintf("%s: no end within %v", what, d), "")
		if hangs.Add(1) >= 4 { // enough: every further request may wait as long
			line("E")
			os.Exit(0)
		}
		return false
	}
}

func randScript(r *rand.Rand) (script, string) {
	s := script{Tokens: tokens(r, r.Intn(12))}
	shape := "plain"
	if r.Intn(2) == 0 {
		s.Delay = r.Intn(800)
	}
	switch r.Intn(8) {
	case 0:
		n := r.Intn(len(s.Tokens) + 1)
		s.ThrowAt = &n
		shape = "throws"
	case 1:
		s.NoLast = true
		shape = "nolast"
	}
	return s, shape
}

func files(dir string) []string {
	m, _ := filepath.Glob(filepath.Join(dir, "*"))
	return m
}

var seed int64
var thorough bool

func scale(q, t int) int {
	if thorough {
		return t
	}
	return q
}

// Many clients at once, each with its own script.
func concurrent(round int) {
	r := rand.New(rand.NewSource(seed*7919 + int64(round)))
	n := 1 + r.Intn(12)
	shared := r.Intn(2) == 0
	line("B", fmt.Sprintf("concurrent %d clients", n))
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		s, shape := randScript(r)
		id, idk := "", "none"
		switch r.Intn(3) {
		case 0:
			id, idk = fmt.Sprintf("req-%d-%d", round, i), "own"
		case 1:
			if shared {
				id, idk = "same", "shared"
			}
		}
		model := []string{"text", "text-2"}[r.Intn(2)]
		leave := 0
		if r.Intn(5) == 0 && len(s.Tokens) > 1 {
			leave = 1 + r.Intn(len(s.Tokens)-1)
			s.Delay = 200 + r.Intn(800)
		}
		kase(fmt.Sprintf("%s/%s/%s/%d/%v", shape, idk, model, len(s.Tokens), leave > 0))
		s.What = fmt.Sprintf("%s id=%s leave=%v", shape, idk, leave > 0)
		wg.Add(1)
		go func() {
			defer wg.Done()
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			if leave > 0 {
				a := post(ctx, request(model, id, s, nil), leave)
				cancel()
				got := strings.Join(a.content, "")
				if a.err == nil && !strings.HasPrefix(strings.Join(s.Tokens, ""), got) {
					violation("content:leaving", fmt.Sprintf("a client got %q, the model gave %q", a.content, s.Tokens), num(a))
				}
				observe("left", 1)
				return
			}
			var a answer
			if bounded("answer:"+shape+":"+idk, 15*time.Second, func() { a = post(ctx, request(model, id, s, nil), 0) }) {
				whole(shape+":"+idk, a, s, id, 0)
				observe("answers", 1)
			}
		}()
	}
	wg.Wait()
}

func sameJSON(a, b any) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return bytes.Equal(x, y)
}

func decodeExact(s string) (map[string]any, error) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var m map[string]any
	err := d.Decode(&m)
	return m, err
}

// What the model sees is what the client asked.
func faithful(round int) {
	r := rand.New(rand.NewSource(seed*104729 + int64(round)))
	text := strings.Join(tokens(r, 1+r.Intn(6)), "")
	ints := []string{"0", "-1", "7", "9007199254740993", "123456789012345678", "1024", "9223372036854775807"}
	fl := []string{"0.1", "0.7", "1e-5", "1.0", "0.30000001192092896"}
	msgs, _ := json.Marshal([]any{map[string]any{"role": "system", "content": "<s>&"}, map[string]any{"role": "user", "content": text}})
	extra := fmt.Sprintf(`"seed": %s, "temperature": %s, "max_length": %d, "do_sample": %v, "deep": {"a": [%s, null, true, "\u00e9"]}`,
		ints[r.Intn(len(ints))], fl[r.Intn(len(fl))], 1+r.Intn(99), r.Intn(2) == 0, ints[r.Intn(len(ints))])
	body := fmt.Sprintf(`{"model": "text", "messages": %s, %s, "vh": {"tokens": [], "echo": true}}`, msgs, extra)
	kase("faithful/" + extra)
	var a answer
	if !bounded("answer:echo", 15*time.Second, func() { a = post(context.Background(), []byte(body), 0) }) {
		return
	}
	if !whole("echo", a, script{}, "", 1) || len(a.content) == 0 {
		return
	}
	got, err := decodeExact(a.content[0])
	want, err2 := decodeExact(body)
	if err != nil || err2 != nil {
		return
	}
	req, _ := got["request"].(map[string]any)
	if got["session"] != "/models/text" {
		violation("session", "a request went to the wrong model", fmt.Sprint(got["session"]))
	}
	for k, v := range want {
		if k == "model" {
			continue
		}
		if !sameJSON(req[k], v) {
			x, _ := json.Marshal(req[k])
			y, _ := json.Marshal(v)
			// Numbers may be written differently.
			var fx, fy any
			if json.Unmarshal(x, &fx) == nil && json.Unmarshal(y, &fy) == nil && k != "seed" && k != "deep" && sameJSON(fx, fy) {
				continue
			}
			violation("forwarded:"+k, fmt.Sprintf("the model was asked %s = %s, the client said %s", k, x, y), body)
		}
	}
	observe("faithful", 1)
}

// Requests that must be refused, and reach no model.
func refused(round int) {
	img := "data:image/png;base64," + base64.StdEncoding.EncodeToString([]byte("png"))
	cases := []struct {
		name, method, body string
		lo, hi             int
	}{
		{"get", "GET", "", 400, 499},
		{"put", "PUT", `{"model":"text","messages":[]}`, 400, 499},
		{"empty", "POST", "", 400, 499},
		{"half", "POST", `{"model":"text","messages":[{"role"`, 400, 499},
		{"array", "POST", `[1,2]`, 400, 499},
		{"text", "POST", `hello`, 400, 499},
		{"null", "POST", `null`, 400, 499},
		{"number", "POST", `3`, 400, 499},
		{"nomodel", "POST", `{"messages":[{"role":"user","content":"x"}]}`, 400, 499},
		{"unknown", "POST", `{"model":"nobody","messages":[{"role":"user","content":"x"}]}`, 400, 499},
		{"model-type", "POST", `{"model":7,"messages":[{"role":"user","content":"x"}]}`, 400, 499},
		{"model-list", "POST", `{"model":["text"],"messages":[]}`, 400, 499},
		{"ocr-noimage", "POST", `{"model":"my-ocr","messages":[{"role":"user","content":"x"}]}`, 400, 499},
		{"ocr-nomessages", "POST", `{"model":"my-ocr"}`, 400, 499},
		{"ocr-nouser", "POST", `{"model":"my-ocr","messages":[{"role":"system","content":"x"}]}`, 400, 499},
		{"ocr-messages-type", "POST", `{"model":"my-ocr","messages":{"role":"user"}}`, 400, 499},
		{"ocr-strings", "POST", `{"model":"my-ocr","messages":["x", 3, null]}`, 400, 499},
		{"ocr-path", "POST", `{"model":"my-ocr","messages":[{"role":"user","content":"x","images":["/etc/hostname"]}]}`, 400, 499},
		{"ocr-url", "POST", `{"model":"my-ocr","messages":[{"role":"user","content":[{"type":"image_url","image_url":{"url":"http://localhost/x.png"}}]}]}`, 400, 499},
		{"ocr-base64", "POST", `{"model":"my-ocr","messages":[{"role":"user","content":[{"type":"image_url","image_url":{"url":"data:image/png;base64,@@@"}}]}]}`, 400, 499},
		{"ocr-format", "POST", `{"model":"my-ocr","messages":[{"role":"user","content":[{"type":"image_url","image_url":{"url":"data:image/tiff;base64,AAAA"}}]}]}`, 400, 499},
		{"ocr-nocomma", "POST", `{"model":"my-ocr","messages":[{"role":"user","content":[{"type":"image_url","image_url":{"url":"data:image/png;base64"}}]}]}`, 400, 499},
		{"ocr-unknown", "POST", fmt.Sprintf(`{"model":"other-ocr","messages":[{"role":"user","content":[{"type":"image_url","image_url":{"url":"%s"}}]}]}`, img), 400, 499},
		{"ocr-url-type", "POST", `{"model":"my-ocr","messages":[{"role":"user","content":[{"type":"image_url","image_url":"x"}]}]}`, 400, 499},
		{"ocr-images-type", "POST", `{"model":"my-ocr","messages":[{"role":"user","content":"x","images":[5]}]}`, 400, 499},
		{"ocr-images-empty", "POST", `{"model":"my-ocr","messages":[{"role":"user","content":"x","images":[]}]}`, 400, 499},
	}
	for _, c := range cases {
		line("B", "refused "+c.name)
		kase("refused/" + c.name)
		before := probe.Served()
		req, _ := http.NewRequest(c.method, base+"/v1/chat/completions", strings.NewReader(c.body))
		var resp *http.Response
		var err error
		var body []byte
		if !bounded("refused:"+c.name, 10*time.Second, func() {
			resp, err = client.Do(req)
			if err == nil {
				body, _ = io.ReadAll(resp.Body)
				resp.Body.Close()
			}
		}) {
			continue
		}
		if err != nil {
			violation("dropped:"+c.name, "the connection of an invalid request is dropped without an answer: "+err.Error(), c.body)
			continue
		}
		if resp.StatusCode < c.lo || resp.StatusCode > c.hi {
			violation("accepted:"+c.name, fmt.Sprintf("an invalid request (%s) is answered with status %d", c.name, resp.StatusCode), c.body+" -> "+string(body))
		}
		if probe.Served() != before {
			violation("reached:"+c.name, "a refused request reached the model", c.body)
		}
		observe("refused", 1)
	}
}

// Requests with images: the model gets the image and the text of the last user message, from a file that is gone afterwards.
func ocr(round int, tmp string) {
	r := rand.New(rand.NewSource(seed*15485863 + int64(round)))
	n := 1 + r.Intn(3)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		raw := make([]byte, 1+r.Intn(300))
		r.Read(raw)
		fmtName := []string{"png", "jpeg", "webp"}[r.Intn(3)]
		uri := "data:image/" + fmtName + ";base64," + base64.StdEncoding.EncodeToString(raw)
		text := "read " + strconv.Itoa(r.Intn(1000))
		form := []string{"content", "images"}[r.Intn(2)]
		var user map[string]any
		if form == "content" {
			parts := []any{map[string]any{"type": "text", "text": text}, map[string]any{"type": "image_url", "image_url": map[string]any{"url": uri}}}
			if r.Intn(2) == 0 {
				parts[0], parts[1] = parts[1], parts[0]
			}
			user = map[string]any{"role": "user", "content": parts}
		} else {
			user = map[string]any{"role": "user", "content": text, "images": []any{uri}}
		}
		msgs := []any{user}
		hist := r.Intn(4)
		secret := filepath.Join(os.Getenv("VH20_SECRET"), "secret.png")
		switch hist {
		case 1:
			msgs = []any{map[string]any{"role": "user", "content": "before"}, map[string]any{"role": "assistant", "content": "ok"}, user}
		case 2:
			msgs = []any{map[string]any{"role": "user", "content": "before", "images": []any{secret}}, map[string]any{"role": "assistant", "content": "ok"}, user}
		case 3:
			msgs = []any{map[string]any{"role": "system", "content": "s", "images": []any{secret}}, user}
		}
		s := script{Tokens: tokens(r, r.Intn(5)), Echo: true, What: "ocr"}
		if r.Intn(4) == 0 {
			k := r.Intn(len(s.Tokens) + 1)
			s.ThrowAt = &k
		}
		kase(fmt.Sprintf("ocr/%s/%s/%d/%v", fmtName, form, hist, s.ThrowAt != nil))
		body := request("my-ocr", "", s, map[string]any{"messages": msgs})
		wg.Add(1)
		go func() {
			defer wg.Done()
			var a answer
			if !bounded("answer:ocr", 15*time.Second, func() { a = post(context.Background(), body, 0) }) {
				return
			}
			if !whole("ocr:"+form, a, s, "", 1) || len(a.content) == 0 {
				return
			}
			e, err := decodeExact(a.content[0])
			if err != nil {
				return
			}
			fs, _ := e["files"].([]any)
			want := hex.EncodeToString(raw)
			if len(fs) != 1 {
				violation("ocr-images", fmt.Sprintf("the model was given %d images for a message with one (history kind %d)", len(fs), hist), fmt.Sprint(fs))
			}
			for _, f := range fs {
				m := f.(map[string]any)
				p, _ := m["path"].(string)
				if p == secret {
					violation("ocr-path", "the model was given a file of the server that the client named", p)
				} else if h, _ := m["hex"].(string); h != want {
					violation("ocr-bytes", "the model was given other bytes than the image the client sent", h+" for "+want)
				}
			}
			req, _ := e["request"].(map[string]any)
			ms, _ := req["messages"].([]any)
			if len(ms) > 0 {
				last, _ := ms[len(ms)-1].(map[string]any)
				if last["content"] != text {
					violation("ocr-text", fmt.Sprintf("the model was asked %v, the client said %q", last["content"], text), "")
				}
			}
			observe("images", 1)
		}()
	}
	wg.Wait()
	for i := 0; i < 200 && len(files(tmp)) > 0; i++ {
		time.Sleep(5 * time.Millisecond)
	}
	if left := files(tmp); len(left) > 0 {
		violation("tempfile", fmt.Sprintf("%d image files stay behind after their requests", len(left)), strings.Join(left, " "))
		for _, f := range left {
			os.Remove(f)
		}
	}
}

// A client that leaves, then asks again under the same id: the second answer is the second request's.
func again(round int) {
	r := rand.New(rand.NewSource(seed*32452843 + int64(round)))
	id := fmt.Sprintf("again-%d", round)
	s := script{Tokens: tokens(r, 20), Delay: 500, What: "left then again"}
	ctx, cancel := context.WithCancel(context.Background())
	post(ctx, request("text", id, s, nil), 2)
	cancel()
	if r.Intn(2) == 0 {
		time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
	}
	s2 := script{Tokens: tokens(r, 1+r.Intn(5)), What: "again"}
	kase(fmt.Sprintf("again/%d", len(s2.Tokens)))
	var a answer
	if bounded("answer:again", 15*time.Second, func() { a = post(context.Background(), request("text", id, s2, nil), 0) }) {
		whole("again", a, s2, id, 0)
		observe("again", 1)
	}
}

func main() {
	var err error
	out, err = os.OpenFile(os.Getenv("VH_OUT"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		panic(err)
	}
	seed, _ = strconv.ParseInt(os.Getenv("VH_SEED"), 10, 64)
	thorough = os.Getenv("VH_THOROUGH") == "1"
	log.SetOutput(io.Discard)
	tmp := os.Getenv("TMPDIR")
	os.WriteFile(filepath.Join(os.Getenv("VH20_SECRET"), "secret.png"), []byte("secret"), 0o644)

	if !mllm.InitializeContext() {
		line("H", "the context does not start")
		return
	}
	svc := pkgmllm.NewService()
	if _, err := mllm.NewSession("/models/broken"); err == nil {
		violation("load", "a model that cannot be loaded gives a session", "")
	}
	open := func(path string, ocr bool) {
		var s *mllm.Session
		var err error
		if ocr {
			s, err = mllm.NewDeepseekOCRSession(path)
		} else {
			s, err = mllm.NewSession(path)
		}
		if err != nil || !s.Insert(filepath.Base(path)) {
			line("H", "no session: "+path)
			os.Exit(3)
		}
		svc.RegisterSession(filepath.Base(path), s)
	}
	open("/models/text", false)
	open("/models/text-2", false)
	open("/models/my-ocr", true)
	workers := 1 + int(seed%4)
	if !mllm.StartService(workers) {
		line("H", "the service does not start")
		return
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		line("H", err.Error())
		return
	}
	addr := l.Addr().String()
	l.Close()
	base = "http://" + addr
	srv := server.NewServer(addr, svc)
	go srv.Start()
	for i := 0; ; i++ {
		c, err := net.Dial("tcp", addr)
		if err == nil {
			c.Close()
			break
		}
		if i > 500 {
			line("H", "the server does not listen")
			return
		}
		time.Sleep(10 * time.Millisecond)
	}

	runtime.GC()
	for i := 0; i < scale(60, 1500); i++ {
		concurrent(i)
	}
	runtime.GC()
	for i := 0; i < scale(40, 600); i++ {
		faithful(i)
	}
	for i := 0; i < scale(3, 30); i++ {
		refused(i)
	}
	for i := 0; i < scale(40, 600); i++ {
		ocr(i, tmp)
	}
	for i := 0; i < scale(15, 200); i++ {
		again(i)
	}
	// Models finish, and what they gave to clients that left is taken away.
	line("B", "settle")
	for i := 0; i < 400 && probe.Active() > 0; i++ {
		time.Sleep(10 * time.Millisecond)
	}
	if probe.Active() > 0 {
		violation("hang:settle", "a model still runs after its requests", "")
	}
	time.Sleep(1500 * time.Millisecond)
	observe("served", probe.Served())

	// A clean stop, with a client still waiting.
	line("B", "stop")
	k := make(chan answer, 1)
	slow := script{Tokens: tokens(rand.New(rand.NewSource(seed)), 8), Delay: 50000, What: "stopped"}
	go func() { k <- post(context.Background(), request("text", "", slow, nil), 0) }()
	time.Sleep(120 * time.Millisecond)
	if !bounded("stop", 20*time.Second, func() {
		ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
		defer cancel()
		if err := srv.Shutdown(ctx); err != nil {
			violation("shutdown", "the server does not shut down in time: "+err.Error(), "")
		}
		svc.Shutdown()
		mllm.StopService()
	}) {
		line("E")
		os.Exit(0)
	}
	select {
	case a := <-k:
		whole("stop", a, slow, "", 0)
		kase("stop")
	case <-time.After(5 * time.Second):
		violation("hang:stopped-client", "a client still waits after the server has stopped", "")
	}
	if _, err := svc.GetSession("text"); err == nil {
		violation("closed", "a closed session is still handed out", "")
	}
	if n, what := probe.Leftover(); n > 0 {
		violation("leftover", fmt.Sprintf("responses of %d requests stay in memory after their clients are gone", n), what)
	}
	// After the stop a poll ends at once instead of waiting, or spinning, for ever.
	line("B", "poll after stop")
	s3, err := mllm.NewSession("/models/late")
	if err == nil {
		var got string
		if bounded("poll-after-stop", 5*time.Second, func() { got = s3.PollResponse("nobody") }) && got != "" {
			violation("poll-after-stop", "a poll of a stopped service answers as if more were to come", got)
		}
		s3.Close()
		s3.Close()
	}
	runtime.GC()
	line("E")
}
