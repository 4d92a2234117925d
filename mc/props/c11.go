package props

import (
	"errors"
	"fmt"
	"io"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/verifmc/family"
	"github.com/batchatco/go-native-netcdf/verifmc/fw"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
)

// source delivers a file as deliver says; every way keeps to the io.Reader contract.
type source struct {
	*family.Mem
	b       []byte
	pos     int64
	n       int // reads so far
	deliver func(n, want, rem int) (give int, eof bool)
}

func newSource(b []byte, deliver func(n, want, rem int) (int, bool)) *source {
	return &source{Mem: family.NewMem(b), b: b, deliver: deliver}
}

func (s *source) Seek(o int64, w int) (int64, error) {
	switch w {
	case io.SeekCurrent:
		o += s.pos
	case io.SeekEnd:
		o += int64(len(s.b))
	}
	if o < 0 {
		return 0, errors.New("negative position")
	}
	s.pos = o
	return o, nil
}

func (s *source) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	rem := int64(len(s.b)) - s.pos
	if rem <= 0 {
		return 0, io.EOF
	}
	want := int(min(int64(len(p)), rem))
	give, eof := s.deliver(s.n, len(p), int(rem))
	s.n++
	give = min(give, want)
	copy(p[:give], s.b[s.pos:])
	s.pos += int64(give)
	if eof && s.pos >= int64(len(s.b)) {
		return give, io.EOF
	}
	return give, nil
}

const whole = 1 << 40

// c11Read opens a source and makes every read request.
func c11Read(src api.ReadSeekerCloser) (out []string) {
	if p := obs.Safe(func() {
		g, err := netcdf.New(src)
		if err != nil {
			out = append(out, "open: "+err.Error())
			return
		}
		out = obs.Dump(g, obs.Opt{Types: true, AttrTypes: true, Getter: true, UserTypes: true, ErrText: true})
		for _, x := range callsOf(g, false) {
			a, _ := x.run(g, noKeep)
			out = append(out, x.name+" "+a)
		}
		g.Close()
	}); p != "" {
		out = append(out, p)
	}
	return out
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C11", Level: "model_checking",
		Rule: "each corpus file is opened and read completely from a source that always fills the buffer, and from sources that deliver otherwise: uniformly (at most k bytes per read, data together with io.EOF, reads of nothing in between), and for every single read of the run one that is short by a byte, a single byte, or nothing (deviation bound 1; thorough: every pair of reads of the small files, bound 2); all answers must be the same",
		Bounds: func(t string) string {
			if t == "thorough" {
				return "the corpus of small files; 20 uniform deliveries; 3 deviations at every read, and every pair of deviating reads for files with up to 150 reads"
			}
			return "the corpus of small files; 20 uniform deliveries; 3 deviations at every read (runs of more than 600 reads: every k-th, k so that about 600 are tried)"
		},
		Enumerate: func(tier string, y fw.Yield) {
			full := func(int, int, int) (int, bool) { return whole, false }
			for _, s := range family.Corpus() {
				check := func(c *fw.Ctx, want []string, what string, src *source) bool {
					c.Trans(1)
					c.State(1)
					c.Trace(1)
					if d := obs.Diff(want, c11Read(src)); d != "" {
						c.Failf("%s: %s", what, d)
						return false
					}
					return true
				}
				y(func() string { return "uniform " + s.Name }, func(c *fw.Ctx) {
					b := corpusBytes(c, s)
					want := c11Read(newSource(b, full))
					c.Outcome(fmt.Sprint(want))
					for _, k := range []int{1, 2, 3, 5, 7, 8, 16, 100, 511, 512, 4095, 4096, 4097} {
						if !check(c, want, fmt.Sprintf("%d bytes at a time", k), newSource(b, func(int, int, int) (int, bool) { return k, false })) {
							return
						}
						if k <= 8 && !check(c, want, fmt.Sprintf("%d bytes at a time, EOF with the last", k), newSource(b, func(int, int, int) (int, bool) { return k, true })) {
							return
						}
					}
					for what, f := range map[string]func(n, want, rem int) (int, bool){
						"EOF with the last bytes":    func(n, want, rem int) (int, bool) { return whole, true },
						"every second read empty":    func(n, want, rem int) (int, bool) { return whole * (n % 2), false },
						"one byte short":             func(n, want, rem int) (int, bool) { return max(1, want-1), false },
						"half":                       func(n, want, rem int) (int, bool) { return max(1, want/2), true },
						"growing":                    func(n, want, rem int) (int, bool) { return 1 + n, true },
						"a byte, nothing, the rest":  func(n, want, rem int) (int, bool) { return []int{1, 0, whole}[n%3], true },
						"three empty reads, then it": func(n, want, rem int) (int, bool) { return whole * ((n % 4) / 3), false },
					} {
						if !check(c, want, what, newSource(b, f)) {
							return
						}
					}
				})
				dev := []struct {
					what string
					f    func(want int) int
				}{{"one byte short", func(want int) int { return max(1, want-1) }}, {"a single byte", func(int) int { return 1 }}, {"nothing", func(int) int { return 0 }}}
				for i, d := range dev {
					y(func() string { return fmt.Sprintf("one read %s %s", d.what, s.Name) }, func(c *fw.Ctx) {
						b := corpusBytes(c, s)
						ref := newSource(b, full)
						want := c11Read(ref)
						step := 1
						if tier != "thorough" {
							step = 1 + ref.n/600
						}
						for k := i % step; k < ref.n; k += step {
							if !check(c, want, fmt.Sprintf("read %d delivers %s", k, d.what), newSource(b, func(n, w, rem int) (int, bool) {
								if n == k {
									return d.f(min(w, rem)), true
								}
								return whole, true
							})) {
								return
							}
						}
						if tier != "thorough" || ref.n > 150 {
							return
						}
						for k := range ref.n {
							for l := k + 1; l < ref.n; l++ {
								if !check(c, want, fmt.Sprintf("reads %d and %d deliver %s", k, l, d.what), newSource(b, func(n, w, rem int) (int, bool) {
									if n == k || n == l {
										return d.f(min(w, rem)), true
									}
									return whole, true
								})) {
									return
								}
							}
						}
					})
				}
			}
		},
	})
}
