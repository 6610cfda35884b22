package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

// child is a process that runs cases which need a process of their own: they
// replace standard input and output, send signals, and leave goroutines behind.
type child struct {
	check *Check
	part  *Part

	cmd    *exec.Cmd
	req    *os.File
	resp   *bufio.Reader
	respF  *os.File
	stderr *tail
	cases  int
}

// casesPerChild bounds what a child leaves behind.
const casesPerChild = 150

type childReply struct {
	V       *Violation       `json:"v,omitempty"`
	Inc     string           `json:"inc,omitempty"`
	Key     uint64           `json:"key"`
	KeySet  bool             `json:"keySet"`
	Trivial bool             `json:"trivial"`
	Counts  map[string]int64 `json:"counts"`
	Sample  string           `json:"sample"`
}

// tail keeps the last part of what is written.
type tail struct {
	mu  sync.Mutex
	buf []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.buf = append(t.buf, p...)
	if len(t.buf) > 1<<20 {
		t.buf = append([]byte(nil), t.buf[len(t.buf)-1<<19:]...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.buf)
}

func (c *child) start(seed uint64, tier string) error {
	self, err := os.Executable()
	if err != nil {
		return err
	}
	reqR, reqW, err := os.Pipe()
	if err != nil {
		return err
	}
	respR, respW, err := os.Pipe()
	if err != nil {
		return err
	}
	cmd := exec.Command(self, c.check.ID, "--child", c.part.Name)
	cmd.ExtraFiles = []*os.File{reqR, respW}
	cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_SEED=%d", int64(seed)), "VERIF_TIER="+tier)
	c.stderr = &tail{}
	cmd.Stderr = c.stderr
	if err := cmd.Start(); err != nil {
		return err
	}
	_ = reqR.Close()
	_ = respW.Close()
	c.cmd, c.req, c.respF, c.resp, c.cases = cmd, reqW, respR, bufio.NewReader(respR), 0
	return nil
}

func (c *child) close() {
	if c.cmd == nil {
		return
	}
	_ = c.req.Close()
	timer := time.AfterFunc(10*time.Second, func() { _ = c.cmd.Process.Kill() })
	_ = c.cmd.Wait()
	timer.Stop()
	_ = c.respF.Close()
	c.cmd = nil
}

// run has the child run the case.
func (c *child) run(t *T, seed uint64, tier string) (*Violation, string) {
	if c.cmd != nil && c.cases >= casesPerChild {
		c.close()
	}
	if c.cmd == nil {
		if err := c.start(seed, tier); err != nil {
			return nil, "no child process: " + err.Error()
		}
	}
	c.cases++
	fmt.Fprintf(c.req, "%d\n", t.Index)

	type result struct {
		line []byte
		err  error
	}
	ch := make(chan result, 1)
	resp := c.resp
	go func() {
		l, err := resp.ReadBytes('\n')
		ch <- result{l, err}
	}()
	var res result
	select {
	case res = <-ch:
	case <-time.After(240 * time.Second):
		_ = c.cmd.Process.Kill()
		<-ch
		c.close()
		return nil, fmt.Sprintf("%s case %d: the child process did not answer", c.part.Name, t.Index)
	}
	var reply childReply
	if res.err == nil {
		res.err = json.Unmarshal(res.line, &reply)
	}
	if res.err != nil {
		_ = c.req.Close()
		_ = c.cmd.Wait()
		_ = c.respF.Close()
		state := c.cmd.ProcessState.String()
		c.cmd = nil
		out := c.stderr.String()
		if what := crashCause(out); what != "" {
			i := strings.Index(out, "WARNING: DATA RACE")
			if i < 0 {
				i = max(strings.Index(out, "panic: "), strings.Index(out, "fatal error: "))
			}
			return &Violation{Property: c.check.ID, Part: c.part.Name, Case: t.Index, Seed: seed, Tier: tier, Message: what, Stack: lastBytes(out[max(0, i):], 60000),
				Rerun: fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s ./run.sh %s --case %s:%d", seed, tier, c.check.ID, c.part.Name, t.Index)}, ""
		}
		return nil, fmt.Sprintf("%s case %d: the child process ended: %s %s", c.part.Name, t.Index, state, firstLines(out, 20))
	}
	t.key, t.keySet, t.trivial, t.sample = reply.Key, reply.KeySet, reply.Trivial, reply.Sample
	for k, n := range reply.Counts {
		t.counts[k] += n
	}
	return reply.V, reply.Inc
}

// childMain runs the cases whose numbers are read from file 3.
func childMain(c *Check, part string, seed uint64, tier string) {
	in := bufio.NewReader(os.NewFile(3, "requests"))
	out := os.NewFile(4, "replies")
	for {
		line, err := in.ReadString('\n')
		if err != nil {
			return
		}
		p, i := findCase(c, part+":"+strings.TrimSpace(line))
		t := newCase(c, p, seed, tier, i)
		v, inc := runCase(t, seed, tier)
		b, err := json.Marshal(childReply{v, inc, t.key, t.keySet, t.trivial, t.counts, t.sample})
		if err != nil || bytes.IndexByte(b, '\n') >= 0 {
			fatal("reply: %v", err)
		}
		if _, err := out.Write(append(b, '\n')); err != nil {
			return
		}
	}
}
