package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Usage:
//   harness run ID quick|thorough        check one property
//   harness replay FILE                  judge a replay file again
// internal:
//   harness worker ...                   one shard of a run
//   harness judge FILE N                 judge a case N times (own process)
//   harness hist                         run a history from stdin, print results

type Failure struct {
	Choices []uint32
	Case    *Case
	Msg     string
}

type WorkerResult struct {
	Evals, Skipped, NonTrivial int
	EnumEvals                  int
	EnumDone                   bool
	Labels                     map[string]int
	Samples                    []*Case
	Fail                       *Failure
}

type Replay struct {
	Property string
	Message  string
	Seed     int
	Choices  []uint32 `json:",omitempty"`
	Case     *Case
	How      string
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness run ID quick|thorough | replay FILE")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(run(os.Args[2], os.Args[3]))
	case "worker":
		worker(os.Args[2:])
	case "judge":
		n := 1
		if len(os.Args) > 3 {
			n, _ = strconv.Atoi(os.Args[3])
		}
		judgeFile(os.Args[2], n)
	case "hist":
		hist()
	case "replay":
		replay(os.Args[2])
	case "sweep":
		sweep(os.Args[2:])
	case "show":
		show(os.Args[2], os.Args[3])
	default:
		os.Exit(2)
	}
}

func seedEnv() int {
	n, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		return 1
	}
	return n
}

func caseSeed(id string, seed, shard, idx int) uint64 {
	return mix(hashString(id), uint64(seed), uint64(shard), uint64(idx))
}

func caseHash(c *Case) uint64 {
	h := hashString(c.Kind + c.Dialect)
	for _, t := range c.Texts {
		h = mix(h, hashString(string(t)))
	}
	for _, r := range c.Reps {
		h = mix(h, hashString(r.S), uint64(r.N))
	}
	for _, o := range c.Ops {
		h = mix(h, uint64(o.Text), hashString(o.Dialect), uint64(o.Par))
	}
	return h
}

// ---- worker ----

const memLimit = 3 << 30

type beat struct {
	start atomic.Int64
	huge  atomic.Bool
}

func guard(b *beat, hang time.Duration, note func(string)) {
	debug.SetMaxStack(512 << 20)
	go func() {
		var ms runtime.MemStats
		for {
			time.Sleep(250 * time.Millisecond)
			h, mem := hang, uint64(memLimit)
			if b.huge.Load() {
				h, mem = max(h, 300*time.Second), 10<<30
			}
			if st := b.start.Load(); st != 0 && time.Since(time.Unix(0, st)) > h {
				note("no answer after " + h.String())
				os.Exit(12)
			}
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > mem {
				note(fmt.Sprintf("more than %d GB of memory in use", mem>>30))
				os.Exit(13)
			}
		}
	}()
}

func hangLimit(p *Prop) time.Duration {
	if p.Slow {
		return 150 * time.Second
	}
	return 25 * time.Second
}

func worker(a []string) {
	id := a[0]
	seed, _ := strconv.Atoi(a[1])
	shard, _ := strconv.Atoi(a[2])
	shards, _ := strconv.Atoi(a[3])
	deadMs, _ := strconv.ParseInt(a[4], 10, 64)
	max, _ := strconv.Atoi(a[5])
	dir := a[6]
	deadline := time.UnixMilli(deadMs)
	half := time.Until(deadline) / 2
	p := props[id]
	if os.Getenv("VERIF_FUZZ_ONLY") != "" { // to try the coverage-guided part alone
		q := *p
		q.Enum = nil
		p, max = &q, 0
	}
	res := &WorkerResult{Labels: map[string]int{}}
	jr, err := os.Create(filepath.Join(dir, fmt.Sprintf("journal%d", shard)))
	if err != nil {
		panic(err)
	}
	note := func(string) {}
	jot := func(kind byte, i int) {
		var b [9]byte
		b[0] = kind
		binary.LittleEndian.PutUint64(b[1:], uint64(i))
		jr.WriteAt(b[:], 0)
	}
	var bt beat
	guard(&bt, hangLimit(p), note)
	seen := map[uint64]bool{}
	finish := func() {
		b, err := json.Marshal(res)
		if err != nil {
			panic(err)
		}
		hb := make([]byte, 0, 8*len(seen))
		for h := range seen {
			hb = binary.LittleEndian.AppendUint64(hb, h)
		}
		if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("hashes%d", shard)), hb, 0o644); err != nil {
			panic(err)
		}
		if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("result%d", shard)), b, 0o644); err != nil {
			panic(err)
		}
	}
	one := func(c *Case) string {
		bt.huge.Store(c.Kind == "huge")
		bt.start.Store(time.Now().UnixNano())
		m := judge(c)
		bt.start.Store(0)
		return m
	}
	record := func(c *Case) {
		res.Evals++
		h := caseHash(c)
		if !c.Trivial && !seen[h] {
			if len(seen) < 6000000 {
				seen[h] = true
			}
			res.NonTrivial++
		}
		done := map[string]bool{}
		for _, l := range c.Labels {
			if !done[l] {
				res.Labels[l]++
				done[l] = true
			}
		}
		if len(res.Samples) < 3 && !c.Trivial && sampleSize(c) < 700 {
			res.Samples = append(res.Samples, c)
		}
	}
	// finite part
	if p.Enum != nil {
		i := 0
		p.Enum(func(mk mkCase) bool {
			k := i
			i++
			if k%shards != shard {
				return true
			}
			c := mk()
			if c == nil {
				return true
			}
			c.Prop = id
			jot('E', k)
			m := one(c)
			record(c)
			res.EnumEvals++
			if m != "" {
				res.Fail = &Failure{Case: c, Msg: m}
				return false
			}
			return true
		})
		res.EnumDone = res.Fail == nil
		if res.Fail != nil {
			finish()
			os.Exit(10)
		}
		res.Samples = nil
		// the random part gets at least half of the time
		if d := time.Now().Add(half); d.After(deadline) {
			deadline = d
		}
	}
	for i := 0; i < max; i++ {
		if i >= 20 && time.Now().After(deadline) {
			break
		}
		jot('R', i)
		s := newSrc(caseSeed(id, seed, shard, i))
		c := p.Gen(s)
		if c == nil || c.skip {
			res.Skipped++
			continue
		}
		m := one(c)
		record(c)
		if m != "" {
			// shrink in this process
			limit := time.Now().Add(20 * time.Second)
			budget := func() bool { return time.Now().Before(limit) }
			bestMsg, bestCase := m, c
			ch := shrink(s.rec, budget, func(x []uint32) ([]uint32, bool) {
				rs := replaySrc(x)
				cc := safeGen(p, rs)
				if cc == nil || cc.skip {
					return nil, false
				}
				mm := one(cc)
				if mm == "" {
					return nil, false
				}
				return rs.rec, true
			})
			rs := replaySrc(ch)
			if cc := safeGen(p, rs); cc != nil && !cc.skip {
				if mm := one(cc); mm != "" {
					bestCase, bestMsg = cc, mm
				}
			}
			res.Fail = &Failure{Choices: ch, Case: bestCase, Msg: bestMsg}
			finish()
			os.Exit(10)
		}
	}
	finish()
}

func safeGen(p *Prop, s *Src) (c *Case) {
	defer func() {
		if recover() != nil {
			c = nil
		}
	}()
	return p.Gen(s)
}

func sampleSize(c *Case) int {
	n := 0
	for _, t := range c.Texts {
		n += len(t)
	}
	return n
}

// ---- judging in a process of its own ----

func readCase(path string) *Case {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil || r.Case == nil {
		fmt.Fprintln(os.Stderr, "bad case file", err)
		os.Exit(2)
	}
	fixExpr(r.Case.Model)
	return r.Case
}

func judgeFile(path string, n int) {
	c := readCase(path)
	var bt beat
	h := 60 * time.Second
	if p := props[c.Prop]; p != nil && p.Slow {
		h = 300 * time.Second
	}
	if v := os.Getenv("VERIF_HANG"); v != "" {
		if d, err := time.ParseDuration(v); err == nil {
			h = d
		}
	}
	guard(&bt, h, func(m string) { fmt.Println("VIOLATED", m) })
	bt.huge.Store(c.Kind == "huge")
	for i := 0; i < n; i++ {
		bt.start.Store(time.Now().UnixNano())
		if m := judge(c); m != "" {
			fmt.Println("VIOLATED", m)
			os.Exit(1)
		}
	}
	fmt.Println("HOLDS")
}

// judgeApart judges a case in a subprocess; a crash or hang is a violation.
func judgeApart(exe string, c *Case, n int, hang time.Duration, dir string) string {
	f, err := os.CreateTemp(dir, "case*.json")
	if err != nil {
		panic(err)
	}
	b, _ := json.Marshal(Replay{Case: c})
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	cmd := exec.Command(exe, "judge", f.Name(), strconv.Itoa(n))
	cmd.Env = append(os.Environ(), "VERIF_HANG="+hang.String(), "GORACE=halt_on_error=1 exitcode=66")
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err = cmd.Run()
	if err == nil {
		return ""
	}
	ee, ok := err.(*exec.ExitError)
	if !ok || ee.ExitCode() == 2 && !strings.Contains(errb.String(), "goroutine") {
		fmt.Fprintln(os.Stderr, "judge process:", err, errb.String())
		return ""
	}
	for _, l := range strings.SplitN(out.String(), "\n", 2) {
		if strings.HasPrefix(l, "VIOLATED ") {
			return strings.TrimSpace(out.String()[len("VIOLATED "):])
		}
	}
	return fmt.Sprintf("process ended with %v: %s", err, firstLines(errb.String(), 12))
}

func replay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil || r.Case == nil {
		fmt.Fprintln(os.Stderr, "not a replay file:", err)
		os.Exit(2)
	}
	exe, _ := os.Executable()
	n := 1
	if r.Case.Kind == "history" {
		n = 200
	}
	dir, err := os.MkdirTemp("", "replay")
	if err != nil {
		panic(err)
	}
	fixExpr(r.Case.Model)
	m := judgeApart(exe, r.Case, n, 60*time.Second, dir)
	os.RemoveAll(dir)
	if m == "" {
		fmt.Println("property", r.Property, "holds on this case")
		return
	}
	fmt.Println(m)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
	os.Exit(1)
}

func show(id, idx string) {
	i, _ := strconv.Atoi(idx)
	p := props[id]
	c := p.Gen(newSrc(caseSeed(id, seedEnv(), 0, i)))
	b, _ := json.MarshalIndent(c, "", " ")
	fmt.Println(string(b))
	for _, t := range c.Texts {
		fmt.Println("-----\n" + string(t))
	}
	if !c.skip {
		fmt.Println("=====", judge(c))
	}
}

// ---- histories in processes of their own ----

func hist() {
	var c Case
	if err := json.NewDecoder(bufio.NewReader(os.Stdin)).Decode(&c); err != nil {
		os.Exit(2)
	}
	var out []string
	for _, o := range c.Ops {
		r := parseName(o.Dialect, string(c.Texts[o.Text]))
		out = append(out, fmt.Sprintf("%#v | %#v", r.tables, r.err))
		if o.Mutate {
			scribble(r.tables)
		}
	}
	b, _ := json.Marshal(out)
	os.Stdout.Write(b)
}

func histApart(c *Case, ops []Op) ([]string, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	b, _ := json.Marshal(Case{Texts: c.Texts, Ops: ops})
	cmd := exec.Command(exe, "hist")
	cmd.Stdin = bytes.NewReader(b)
	o, err := cmd.Output()
	if err != nil {
		return nil, err
	}
	var out []string
	err = json.Unmarshal(o, &out)
	return out, err
}

func judgeFresh(c *Case) string {
	got, err := histApart(c, c.Ops)
	if err != nil {
		return "" // crashes are C01's business
	}
	ref := map[string]string{}
	for i, o := range c.Ops {
		k := fmt.Sprint(o.Text, " ", o.Dialect)
		if _, ok := ref[k]; !ok {
			r, err := histApart(c, []Op{{Text: o.Text, Dialect: o.Dialect}})
			if err != nil || len(r) != 1 {
				return ""
			}
			ref[k] = r[0]
		}
		if got[i] != ref[k] {
			return fmt.Sprintf("step %d (text %d, %q): %s; the same call in a fresh process: %s", i, o.Text, o.Dialect, clip(got[i], 600), clip(ref[k], 600))
		}
	}
	return ""
}

// ---- driver ----

type tier struct {
	budget time.Duration
	max    int
}

func tierOf(name string, p *Prop) tier {
	if name == "thorough" {
		t := tier{240 * time.Second, 1 << 40}
		return t
	}
	return tier{30 * time.Second, 2000000}
}

func run(id, tname string) int {
	begin := time.Now()
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	os.Setenv("VERIF_TIER", tname)
	seed := seedEnv()
	t := tierOf(tname, p)
	if v := os.Getenv("VERIF_BUDGET"); v != "" {
		if d, err := time.ParseDuration(v); err == nil {
			t.budget = d
		}
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	root := filepath.Dir(filepath.Dir(filepath.Dir(exe))) // /verif/.build/ID/harness
	if v := os.Getenv("VERIF_ROOT"); v != "" {
		root = v
	}
	work := filepath.Join(filepath.Dir(exe), "work")
	os.RemoveAll(work)
	if err := os.MkdirAll(work, 0o755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(work)

	known := knownFindings(root, id)
	for _, k := range known {
		if m := judgeApart(exe, k.c, 1, 60*time.Second, work); m != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.what)
		}
	}

	shards := 8
	deadline := begin.Add(t.budget)
	if d := time.Now().Add(t.budget / 2); d.After(deadline) {
		deadline = d
	}
	race := exe + ".race"
	if _, err := os.Stat(race); err != nil {
		race = ""
	}
	exeOf := func(shard int) string {
		if race != "" && shard%2 == 1 {
			return race
		}
		return exe
	}
	type ended struct {
		shard int
		code  int
		err   string
	}
	ch := make(chan ended, shards)
	var mu sync.Mutex
	var procs []*exec.Cmd
	stop := false
	for i := 0; i < shards; i++ {
		cmd := exec.Command(exeOf(i), "worker", id, strconv.Itoa(seed), strconv.Itoa(i), strconv.Itoa(shards), strconv.FormatInt(deadline.UnixMilli(), 10), strconv.Itoa(t.max), work)
		gmp := "2"
		if id == "C03" {
			gmp = "4"
		}
		cmd.Env = append(os.Environ(), "GOMAXPROCS="+gmp, "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single", "GOMEMLIMIT=3GiB")
		var eb bytes.Buffer
		cmd.Stderr = &eb
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		procs = append(procs, cmd)
		go func(i int) {
			err := cmd.Wait()
			code := 0
			if err != nil {
				code = -1
				if ee, ok := err.(*exec.ExitError); ok {
					code = ee.ExitCode()
				}
			}
			mu.Lock()
			if stop && code != 0 && code != 10 {
				code = 99
			}
			mu.Unlock()
			ch <- ended{i, code, firstLines(eb.String(), 25)}
		}(i)
	}
	killAll := func() {
		mu.Lock()
		stop = true
		mu.Unlock()
		for _, c := range procs {
			c.Process.Kill()
		}
	}
	var fail *Failure
	broken := ""
	endings := map[int]ended{}
	overall := time.After(time.Until(deadline) + 420*time.Second)
	for n := 0; n < shards; n++ {
		select {
		case e := <-ch:
			endings[e.shard] = e
			if e.code != 0 && e.code != 99 && fail == nil {
				if e.code == 10 {
					b, err := os.ReadFile(filepath.Join(work, fmt.Sprintf("result%d", e.shard)))
					var r WorkerResult
					if err == nil && json.Unmarshal(b, &r) == nil && r.Fail != nil {
						fixExpr(r.Fail.Case.Model)
						fail = r.Fail
						killAll()
					}
				} else {
					f, why := crashed(p, exeOf(e.shard), work, id, seed, e.shard, e.err)
					if f != nil {
						fail = f
						killAll()
					} else if e.code == 12 || e.code == 13 {
						// too slow or too big only next to the other workers: answered when run alone
						fmt.Fprintln(os.Stderr, "note:", why)
					} else {
						broken = why
					}
				}
			}
		case <-overall:
			broken = "workers did not finish in time"
			killAll()
			n = shards
		}
	}

	// merge
	tot := WorkerResult{Labels: map[string]int{}}
	distinct := map[uint64]bool{}
	allEnum := p.Enum != nil
	for i := 0; i < shards; i++ {
		b, err := os.ReadFile(filepath.Join(work, fmt.Sprintf("result%d", i)))
		if err != nil {
			allEnum = false
			continue
		}
		var r WorkerResult
		if json.Unmarshal(b, &r) != nil {
			continue
		}
		tot.Evals += r.Evals
		tot.Skipped += r.Skipped
		tot.EnumEvals += r.EnumEvals
		allEnum = allEnum && r.EnumDone
		for k, v := range r.Labels {
			tot.Labels[k] += v
		}
		if len(tot.Samples) < 6 {
			tot.Samples = append(tot.Samples, r.Samples...)
		}
		hb, _ := os.ReadFile(filepath.Join(work, fmt.Sprintf("hashes%d", i)))
		for ; len(hb) >= 8; hb = hb[8:] {
			distinct[binary.LittleEndian.Uint64(hb)] = true
		}
	}
	if len(tot.Samples) > 6 {
		tot.Samples = tot.Samples[:6]
	}
	fuzzNote := map[string]interface{}(nil)
	if fail == nil && broken == "" && tname == "thorough" {
		fuzzNote, fail = coverageFuzz(exe, work, p)
	}
	if fail != nil {
		tot.Samples = append(tot.Samples, fail.Case)
		tot.Evals++
	}
	cov := map[string]interface{}{
		"evaluations":                  tot.Evals,
		"distinct_nontrivial":          len(distinct),
		"rule":                         p.Rule,
		"samples":                      tot.Samples,
		"labels":                       topLabels(tot.Labels),
		"generated_but_not_applicable": tot.Skipped,
	}
	if p.Enum != nil {
		cov["enumerated_cases"] = tot.EnumEvals
		cov["enumeration_complete"] = allEnum
	}
	if fuzzNote != nil {
		cov["coverage_guided"] = fuzzNote
	}
	viol := 0
	if fail != nil {
		viol = 1
	}
	ev := map[string]interface{}{
		"property": id, "tier": tname, "seed": seed, "level": "exploration", "coverage": cov,
		"wall_s": time.Since(begin).Seconds(), "violations": viol,
		"assumptions": []string{"the harness's generators, reference grammars and model (/verif/harness) state the documented syntax correctly", "the Go 1.27 toolchain"},
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}

	if fail != nil {
		os.MkdirAll(filepath.Join(root, "replays"), 0o755)
		path := filepath.Join(root, "replays", fmt.Sprintf("%s-%016x.json", id, caseHash(fail.Case)))
		rb, _ := json.MarshalIndent(Replay{Property: id, Message: fail.Msg, Seed: seed, Choices: fail.Choices, Case: fail.Case, How: "bash /verif/run.sh replay " + path}, "", " ")
		os.WriteFile(path, rb, 0o644)
		fmt.Printf("%s: %s\n", id, clip(fail.Msg, 1500))
		for i, tx := range fail.Case.Texts {
			fmt.Printf("text %d (%s): %q\n", i, fail.Case.Dialect, clip(string(tx), 600))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	if broken != "" {
		fmt.Fprintln(os.Stderr, "check broken:", broken)
		return 2
	}
	fmt.Printf("%s %s seed=%d: held on %d cases (%d distinct non-trivial, %d enumerated), %.1f s\n", id, tname, seed, tot.Evals, len(distinct), tot.EnumEvals, time.Since(begin).Seconds())
	return 0
}

func topLabels(m map[string]int) map[string]int {
	if len(m) <= 60 {
		return m
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] })
	out := map[string]int{}
	for _, k := range ks[:60] {
		out[k] = m[k]
	}
	return out
}

// crashed works out which case killed a worker, confirms it in a fresh
// process and shrinks it there.
func crashed(p *Prop, exe, work, id string, seed, shard int, stderr string) (*Failure, string) {
	jb, err := os.ReadFile(filepath.Join(work, fmt.Sprintf("journal%d", shard)))
	if err != nil || len(jb) < 9 {
		return nil, "worker died before its first case: " + stderr
	}
	idx := int(binary.LittleEndian.Uint64(jb[1:]))
	var c *Case
	var ch []uint32
	if jb[0] == 'E' {
		i := 0
		p.Enum(func(mk mkCase) bool {
			if i == idx {
				if c = mk(); c != nil {
					c.Prop = id
				}
				return false
			}
			i++
			return true
		})
	} else {
		s := newSrc(caseSeed(id, seed, shard, idx))
		c = safeGen(p, s)
		ch = s.rec
	}
	if c == nil || c.skip {
		return nil, "harness failure: " + stderr
	}
	n := 1
	if c.Kind == "history" {
		n = 300
	}
	hang := 60 * time.Second
	if p.Slow {
		hang = 300 * time.Second
	}
	m := judgeApart(exe, c, n, hang, work)
	if m == "" && id == "C03" && (strings.Contains(stderr, "DATA RACE") || strings.Contains(stderr, "fatal error: concurrent map")) {
		return &Failure{Choices: ch, Case: c, Msg: "seen once in a concurrent run, not in " + strconv.Itoa(n) + " repetitions:\n" + stderr}, ""
	}
	if m == "" {
		return nil, "worker died, not reproducible alone: " + stderr
	}
	f := &Failure{Choices: ch, Case: c, Msg: m}
	if ch == nil || strings.HasPrefix(m, "no answer") && p.Slow {
		return f, ""
	}
	limit := time.Now().Add(60 * time.Second)
	sh := 4 * time.Second
	if strings.HasPrefix(m, "no answer") {
		sh = 3 * time.Second
	}
	best := shrink(ch, func() bool { return time.Now().Before(limit) }, func(x []uint32) ([]uint32, bool) {
		rs := replaySrc(x)
		cc := safeGen(p, rs)
		if cc == nil || cc.skip {
			return nil, false
		}
		if mm := judgeApart(exe, cc, min(n, 50), sh, work); mm != "" {
			return rs.rec, true
		}
		return nil, false
	})
	rs := replaySrc(best)
	if cc := safeGen(p, rs); cc != nil && !cc.skip {
		// confirm the small one with the full time limit
		if mm := judgeApart(exe, cc, n, hang, work); mm != "" {
			f = &Failure{Choices: best, Case: cc, Msg: mm}
		}
	}
	return f, ""
}

// ---- known findings ----

type knownCase struct {
	c    *Case
	what string
}

func knownFindings(root, id string) []knownCase {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownCase
	for _, l := range strings.Split(string(b), "\n") {
		pre := "known: property=" + id + " case="
		if !strings.HasPrefix(l, pre) {
			continue
		}
		dec := json.NewDecoder(strings.NewReader(l[len(pre):]))
		var c Case
		if err := dec.Decode(&c); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.txt:", err)
			continue
		}
		c.Prop = id
		fixExpr(c.Model)
		out = append(out, knownCase{&c, strings.TrimSpace(l[len(pre)+int(dec.InputOffset()):])})
	}
	return out
}

// choicesOf reads a choice sequence from fuzz data, two bytes a choice.
func choicesOf(data []byte) []uint32 {
	ch := make([]uint32, 0, len(data)/2)
	for ; len(data) >= 2; data = data[2:] {
		v := uint32(data[0])<<8 | uint32(data[1])
		ch = append(ch, v<<16|v)
	}
	return ch
}

const fuzzTime = 150 * time.Second

// coverageFuzz runs the coverage-guided search over the property's choice
// sequences (fuzz_test.go) in processes of its own.
func coverageFuzz(exe, work string, p *Prop) (map[string]interface{}, *Failure) {
	bin := exe + ".fuzz"
	if _, err := os.Stat(bin); err != nil {
		return nil, nil
	}
	dir := filepath.Join(work, "fuzz")
	os.MkdirAll(filepath.Join(dir, "cache"), 0o755)
	lim := fuzzTime
	if v := os.Getenv("VERIF_BUDGET"); v != "" {
		if d, err := time.ParseDuration(v); err == nil && d < lim {
			lim = d
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), lim+120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.fuzz=FuzzProp", "-test.run=^$", "-test.fuzztime="+lim.String(), "-test.fuzzminimizetime=1x", "-test.fuzzcachedir="+filepath.Join(dir, "cache"), "-test.parallel=8")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VERIF_FUZZ_PROP="+p.ID, "VERIF_FUZZ_DIR="+dir, "GOMEMLIMIT=2GiB")
	out, err := cmd.CombinedOutput()
	n, used := 0, 0
	fs, _ := filepath.Glob(filepath.Join(dir, "count*"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		a, u := 0, 0
		fmt.Sscan(string(b), &a, &u)
		n, used = n+a, used+u
	}
	corpus, _ := filepath.Glob(filepath.Join(dir, "cache", "FuzzProp", "*"))
	info := map[string]interface{}{"executions": n, "judged": used, "inputs_with_new_coverage": len(corpus), "seconds": lim.Seconds()}
	if err == nil || ctx.Err() != nil {
		return info, nil
	}
	var ch []uint32
	if b, e := os.ReadFile(filepath.Join(dir, "fail")); e == nil {
		json.Unmarshal(b, &ch)
	} else if fs, _ := filepath.Glob(filepath.Join(dir, "testdata", "fuzz", "FuzzProp", "*")); len(fs) > 0 {
		b, _ := os.ReadFile(fs[0])
		x := strings.TrimSpace(strings.TrimPrefix(string(b), "go test fuzz v1\n"))
		if x, e := strconv.Unquote(strings.TrimSuffix(strings.TrimPrefix(x, "[]byte("), ")")); e == nil {
			ch = choicesOf([]byte(x))
		}
	}
	if ch == nil {
		fmt.Fprintln(os.Stderr, "note: the fuzzer ended early:", firstLines(string(out), 12))
		return info, nil
	}
	msg := ""
	bad := func(x []uint32) ([]uint32, *Case) {
		rs := replaySrc(x)
		c := safeGen(p, rs)
		if c == nil || c.skip {
			return nil, nil
		}
		if m := judgeApart(exe, c, 1, 25*time.Second, work); m != "" {
			msg = m
			return rs.rec, c
		}
		return nil, nil
	}
	_, best := bad(ch)
	if best == nil {
		fmt.Fprintln(os.Stderr, "note: a failure of the fuzzer did not repeat:", firstLines(string(out), 12))
		return info, nil
	}
	limit := time.Now().Add(40 * time.Second)
	ch = shrink(ch, func() bool { return time.Now().Before(limit) }, func(x []uint32) ([]uint32, bool) {
		used, c := bad(x)
		return used, c != nil
	})
	if _, c := bad(ch); c != nil {
		best = c
	}
	return info, &Failure{Choices: ch, Case: best, Msg: msg}
}
