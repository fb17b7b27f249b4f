// Package conc is the child process that runs requests at the same time.
package conc

import (
	"encoding/json"
	"fmt"
	"os"
	"sync"
	"time"
	_ "time/tzdata"

	"github.com/zbdba/db-recovery/recovery/ibdata"
	"github.com/zbdba/db-recovery/recovery/logs"
	"github.com/zbdba/db-recovery/recovery/redo"
)

// Req is a request on a parser of its own.
type Req struct {
	Dict, Data    string
	Logs          []string
	Schema, Table string
	Recovery      bool
}

// Job is what a child does.
type Job struct {
	Reqs   []Req
	Rounds int
	Zone   string
	Level  string
	LogDir string
}

// Run performs a request.
func (r *Req) Run() error {
	if len(r.Logs) > 0 {
		p := redo.NewParse(r.Table, r.Schema)
		if err := p.ParseDictPage(r.Dict); err != nil {
			return fmt.Errorf("dictionary: %v", err)
		}
		return p.ParseRedoLogs(r.Logs)
	}
	p := ibdata.NewParse()
	if err := p.ParseDictPage(r.Dict); err != nil {
		return fmt.Errorf("dictionary: %v", err)
	}
	return p.ParseDataPage(r.Data, r.Schema, r.Table, r.Recovery)
}

// Main runs the job in the file and ends the process: 0, or 1 after an error.
func Main(file string) {
	b, err := os.ReadFile(file)
	var j Job
	if err == nil {
		err = json.Unmarshal(b, &j)
	}
	if err == nil && j.Level != "" {
		err = logs.InitLogs(j.LogDir, j.Level)
	}
	if err == nil {
		time.Local, err = time.LoadLocation(j.Zone)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "conc:", err)
		os.Exit(99)
	}
	errs := make([]error, len(j.Reqs))
	for k := 0; k < j.Rounds; k++ {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range j.Reqs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				if err := j.Reqs[i].Run(); err != nil {
					errs[i] = err
				}
			}(i)
		}
		close(start)
		wg.Wait()
	}
	code := 0
	for i, err := range errs {
		if err != nil {
			fmt.Fprintf(os.Stderr, "request %d: %v\n", i, err)
			code = 1
		}
	}
	os.Exit(code)
}
