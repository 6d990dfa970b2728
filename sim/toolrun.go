package main

// ---- phases: processes, a scheduler and other actors on one disk -----------------

// Edit is something somebody else does to the disk just before a step.
type Edit struct {
	At   int
	Op   string // "put": replaced at once, "trunc": emptied in place, "append", "remove", "mkdir"
	Path string
	Data Blob `json:",omitempty"`
}

// Phase is a set of concurrent invocations.
type Phase struct {
	Procs []Proc
	Sched []int  `json:",omitempty"` // which process takes the next step, while several can
	Edits []Edit `json:",omitempty"`
}

type PhaseResult struct {
	Res    []*Result
	Before *simFS
	Sched  []int
	Steps  int
}

func (fs *simFS) edit(e Edit) {
	switch e.Op {
	case "put":
		fs.remove(e.Path)
		fs.put(e.Path, []byte(e.Data))
	case "trunc":
		if f, er := fs.walk(e.Path, true); er == 0 && f.n != nil && f.n.kind == kFile {
			f.n.data = nil
		}
	case "append":
		if f, er := fs.walk(e.Path, true); er == 0 && f.n != nil && f.n.kind == kFile {
			f.n.data = append(append([]byte(nil), f.n.data...), e.Data...)
		}
	case "remove":
		fs.remove(e.Path)
	case "mkdir":
		fs.mkdirAll(e.Path)
	}
}

// runPhase runs the processes to their end. One step is one system call of one
// process; nothing moves but the process that was given the step.
func runPhase(bin string, fs *simFS, ph *Phase) (*PhaseResult, *simFS, error) {
	w := &simWorld{fs: fs}
	pr := &PhaseResult{Before: fs.clone()}
	var live []*simProc
	defer func() {
		for _, q := range live {
			if !q.done {
				q.cmd.Process.Kill()
				q.end()
			}
		}
	}()
	for i := range ph.Procs {
		p := ph.Procs[i] // a copy: chdir changes it
		p.Faults = append([]OpFault(nil), p.Faults...)
		q, err := startSim(bin, w, &p)
		if err != nil {
			return nil, nil, err
		}
		live = append(live, q)
		pr.Res = append(pr.Res, q.res)
	}
	sched := ph.Sched
	next := 0
	for {
		var can []*simProc
		for _, q := range live {
			if !q.done {
				can = append(can, q)
			}
		}
		if len(can) == 0 {
			break
		}
		for next < len(ph.Edits) && ph.Edits[next].At <= w.step {
			w.fs.edit(ph.Edits[next])
			next++
		}
		k := 0
		if len(can) > 1 && len(sched) > 0 {
			k = sched[0] % len(can)
			sched = sched[1:]
		}
		if err := can[k].doStep(); err != nil {
			return nil, nil, err
		}
		if can[k].res.Crashed && can[k].p.Machine {
			fs = w.fs.crashed(pr.Before, NewRNG(can[k].p.CSeed))
			for _, q := range live {
				if !q.done {
					q.kill()
				}
			}
			w.fs = fs
			break
		}
	}
	for ; next < len(ph.Edits); next++ {
		w.fs.edit(ph.Edits[next])
	}
	pr.Steps = w.step
	return pr, w.fs, nil
}
