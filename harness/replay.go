package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
)

// Conf is what spec/Market.tla writes about itself: its alphabet of bars and
// the machines it steps.
type Conf struct {
	Bars    [][]int `json:"bars"`
	Configs []struct {
		Kind string         `json:"kind"`
		P    map[string]any `json:"p"`
	} `json:"configs"`
}

func (c *Conf) series(m []int) *Series {
	s := &Series{Class: "market", Ex: true}
	for i, a := range m {
		b := c.Bars[a-1]
		s.add(float64(b[0]), float64(b[1]), float64(b[2]), float64(b[3]), float64(b[4]), 1700000000+60*int64(i))
	}
	return s
}

func params(m map[string]any) P {
	p := P{}
	for k, v := range m {
		if f, ok := v.(float64); ok {
			p[k] = int(f)
		} else {
			p[k] = v
		}
	}
	return p
}

func init() {
	// replay: every market of a file through every machine of the specification
	modes["replay"] = func(args []string) {
		fl := flag.NewFlagSet("replay", flag.ExitOnError)
		conf := fl.String("conf", "", "")
		markets := fl.String("markets", "", "one JSON list of bar numbers per line")
		out := fl.String("out", "", "")
		fl.Parse(args)
		var c Conf
		b, err := os.ReadFile(*conf)
		if err == nil {
			err = json.Unmarshal(b, &c)
		}
		if err != nil {
			panic(err)
		}
		f, err := os.Open(*markets)
		if err != nil {
			panic(err)
		}
		defer f.Close()
		var jobs []func() *Trace
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<20)
		for sc.Scan() {
			var m []int
			if err := json.Unmarshal(sc.Bytes(), &m); err != nil {
				panic(err)
			}
			for _, cf := range c.Configs {
				k := kindByName[cf.Kind]
				if k == nil {
					panic("unknown kind " + cf.Kind)
				}
				p := params(cf.P)
				even := len(jobs)%2 == 0
				jobs = append(jobs, func() *Trace { return runKind(0, k, p, c.series(m), even) })
			}
		}
		s := newSink(*out)
		for i, t := range parallel(jobs) {
			t.Id = i
			s.put(t)
		}
		s.close()
		fmt.Println(s.n)
	}
}
