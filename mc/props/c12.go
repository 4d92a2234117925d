package props

import (
	"fmt"
	"io"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/verifmc/family"
	"github.com/batchatco/go-native-netcdf/verifmc/fw"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
)

// c12fault is what the source does when it fails.
type c12fault struct {
	name    string
	err     error
	partial bool // reads deliver half of what was asked for along with the error
	lasting bool // all later operations fail, too
}

// c12src is a file whose at-th operation (Read or Seek, counted from 0) fails; at < 0: none.
type c12src struct {
	*family.Mem
	at, n int
	f     c12fault
	hit   bool
}

func (s *c12src) arm(at int, f c12fault) { s.at, s.n, s.f, s.hit = at, 0, f, false }

func (s *c12src) fails() bool {
	k := s.n
	s.n++
	if s.at < 0 || k < s.at || k > s.at && !s.f.lasting {
		return false
	}
	s.hit = true
	return true
}

func (s *c12src) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if s.fails() {
		n := 0
		if s.f.partial {
			n, _ = s.Mem.Read(p[:len(p)/2])
		}
		return n, s.f.err
	}
	return s.Mem.Read(p)
}

func (s *c12src) Seek(o int64, w int) (int64, error) {
	if s.fails() {
		return 0, s.f.err
	}
	return s.Mem.Seek(o, w)
}

var c12faults = []c12fault{
	{name: "one operation fails", err: errInjected},
	{name: "all operations fail", err: errInjected, lasting: true},
	{name: "one read delivers half and fails", err: errInjected, partial: true},
	{name: "one operation fails with an unexpected EOF", err: io.ErrUnexpectedEOF, partial: true},
	{name: "all operations fail with an unexpected EOF", err: io.ErrUnexpectedEOF, lasting: true},
}

// c12answers runs all calls on a fresh handle of a source that works.
func c12answers(c *fw.Ctx, b []byte) (calls []call, want []string) {
	g, err := netcdf.New(family.NewMem(b))
	if err != nil {
		panic("CHECK BROKEN: " + err.Error())
	}
	defer g.Close()
	calls = callsOf(g, !c.Thorough())
	for _, x := range calls {
		h, err := netcdf.New(family.NewMem(b))
		if err != nil {
			panic("CHECK BROKEN: " + err.Error())
		}
		a, _ := x.run(h, noKeep)
		h.Close()
		want = append(want, a)
	}
	return calls, want
}

func c12open(c *fw.Ctx, b []byte, f c12fault) {
	calls, want := c12answers(c, b)
	for at := 0; ; at++ {
		src := &c12src{Mem: family.NewMem(b), at: at, f: f}
		var g api.Group
		var err error
		p := obs.Safe(func() { g, err = netcdf.New(src) })
		c.Trans(1)
		c.State(1)
		hit := src.hit
		if p != "" {
			c.Failf("open, operation %d: %s", at, p)
			return
		}
		src.arm(-1, f)
		if err == nil {
			for i, x := range calls {
				a, _ := x.run(g, noKeep)
				c.Trans(1)
				c.Trace(1)
				if a != want[i] {
					c.Failf("open worked in spite of the failure of operation %d, then %s:\n    want: %s\n    got:  %s", at, x.name, clip(want[i]), clip(a))
					return
				}
			}
			g.Close()
		} else if !hit {
			c.Failf("open: %v without a failure", err)
			return
		}
		c.Outcome(fmt.Sprint("open ", err != nil))
		if !hit {
			return
		}
		// the source works again, and the same file can be opened
		if err != nil {
			src.Mem.Seek(0, io.SeekStart)
			if p := obs.Safe(func() { g, err = netcdf.New(src) }); p != "" || err != nil {
				c.Failf("open again after the failure of operation %d: %v %s", at, err, p)
				return
			}
			g.Close()
		}
	}
}

func c12call(c *fw.Ctx, b []byte, calls []call, want []string, i int, f c12fault) {
	x := calls[i]
	for at := 0; ; at++ {
		src := &c12src{Mem: family.NewMem(b), at: -1}
		g, err := netcdf.New(src)
		if err != nil {
			panic("CHECK BROKEN: " + err.Error())
		}
		src.arm(at, f)
		a, failed := x.run(g, noKeep)
		c.Trans(1)
		c.State(1)
		hit := src.hit
		src.arm(-1, f)
		if !failed && a != want[i] {
			c.Failf("%s, operation %d:\n    want: %s\n    got:  %s", x.name, at, clip(want[i]), clip(a))
			return
		}
		if failed && !hit && want[i] != "error" {
			c.Failf("%s: an error without a failure", x.name)
			return
		}
		if c.Thorough() && hit && !c12second(c, src, g, calls, want, fmt.Sprintf("%s failed at operation %d", x.name, at), f) {
			return
		}
		// The failed call once more, then the others.
		for n := range calls {
			k := (i + n) % len(calls)
			a, _ := calls[k].run(g, noKeep)
			c.Trans(1)
			c.Trace(1)
			if a != want[k] {
				c.Failf("%s failed at operation %d, then, with the source working, %s:\n    want: %s\n    got:  %s", x.name, at, calls[k].name, clip(want[k]), clip(a))
				return
			}
		}
		g.Close()
		c.Outcome(fmt.Sprint(failed, hit))
		if !hit {
			return
		}
	}
}

// c12second makes every operation of every call fail on a handle on which a call already failed.
func c12second(c *fw.Ctx, src *c12src, g api.Group, calls []call, want []string, before string, f c12fault) bool {
	for i, x := range calls {
		for at := 0; ; at++ {
			src.arm(at, f)
			a, failed := x.run(g, noKeep)
			hit := src.hit
			src.arm(-1, f)
			c.Trans(2)
			c.State(1)
			if !failed && a != want[i] {
				c.Failf("%s, then %s, operation %d:\n    want: %s\n    got:  %s", before, x.name, at, clip(want[i]), clip(a))
				return false
			}
			if a, _ := x.run(g, noKeep); a != want[i] {
				c.Failf("%s, then %s failed at operation %d, then it works:\n    want: %s\n    got:  %s", before, x.name, at, clip(want[i]), clip(a))
				return false
			}
			c.Trace(1)
			if !hit {
				break
			}
		}
	}
	return true
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C12", Level: "model_checking",
		Rule: "for each corpus file: every operation (Read or Seek) of the source that opening needs fails in turn, and, for every read call on an open handle, every operation that call needs fails in turn, each with every kind of failure; the affected call must return an error or the right answer (calls without an error result: the right answer), and afterwards, with the source working, the same call and all others must give the right answers on the same handle",
		Bounds: func(t string) string {
			if t == "thorough" {
				return "the corpus of small files; all calls of the call alphabet; up to two failures per run (or all operations from one on), 5 kinds; HDF5 also a premature end of file"
			}
			return "the corpus of small files; one request of each kind per variable; one failure per run (or all operations from one on), 5 kinds; HDF5 also a premature end of file"
		},
		Enumerate: func(tier string, y fw.Yield) {
			for _, s := range family.Corpus() {
				faults := c12faults
				if !s.CDF {
					// (The missing end of a CDF file counts as not written, see C19.)
					faults = append(append([]c12fault{}, faults...), c12fault{name: "one read finds the end of the file", err: io.EOF},
						c12fault{name: "all reads find the end of the file", err: io.EOF, lasting: true})
				}
				for _, f := range faults {
					y(func() string { return fmt.Sprintf("%s: open, %s", s.Name, f.name) }, func(c *fw.Ctx) {
						c12open(c, corpusBytes(c, s), f)
					})
					y(func() string { return fmt.Sprintf("%s: calls, %s", s.Name, f.name) }, func(c *fw.Ctx) {
						b := corpusBytes(c, s)
						calls, want := c12answers(c, b)
						for i := range calls {
							c12call(c, b, calls, want, i, f)
							if c.Failed() {
								return
							}
						}
					})
				}
			}
		},
	})
}
