package props

import (
	"bytes"
	"fmt"
	"io"

	. "modelconvmc/engine"
)

// chunkReader returns the data cut at the given positions (or every size
// bytes), optionally with empty reads in between and the end signalled
// together with the last bytes.
type chunkReader struct {
	data    []byte
	pos     int
	cuts    []int
	size    int
	empty   bool
	eofWith bool
	blank   bool
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.pos >= len(r.data) {
		return 0, io.EOF
	}
	if r.empty {
		r.blank = !r.blank
		if r.blank {
			return 0, nil
		}
	}
	end := len(r.data)
	if r.size > 0 {
		end = min(end, r.pos+r.size)
	}
	for _, c := range r.cuts {
		if c > r.pos && c < end {
			end = c
		}
	}
	n := copy(p, r.data[r.pos:end])
	r.pos += n
	if r.eofWith && r.pos == len(r.data) {
		return n, io.EOF
	}
	return n, nil
}

func (r *chunkReader) String() string {
	return fmt.Sprintf("cuts %v size %d empty reads %v end with data %v", r.cuts, r.size, r.empty, r.eofWith)
}

func c07Gen(c *Chooser) any {
	if f := corpusFile(c); f != nil {
		return f
	}
	return nil
}

func c07Check(pairs int) func(t *T, v any) {
	return func(t *T, v any) {
		f := v.(*cfile)
		t.State(f.data)
		want, err := f.parse(onlyReader{bytes.NewReader(f.data)})
		t.Must(err == nil, "parse", "a well-formed %s file is rejected: %v", f.format, err)
		n := 0
		try := func(r *chunkReader) {
			n++
			r.data = f.data
			got, err := f.parse(r)
			t.Must(err == nil, "error", "%s read with %v: %v", f.format, r, err)
			t.Must(sameDoc(want, got), "different", "%s read with %v gives a different document", f.format, r)
		}
		seek, err := f.parse(bytes.NewReader(f.data))
		t.Must(err == nil && sameDoc(want, seek), "seekable", "%s from a seekable reader: %v, or a different document", f.format, err)
		for _, size := range []int{1, 2, 3, 5, 7, 13, 16, 21, 64, 127, 128, 129, 512, 4095, 4096} {
			for m := 0; m < 4; m++ {
				if m&1 != 0 && size > 128 && size != 4096 {
					continue
				}
				try(&chunkReader{size: size, empty: m&1 != 0, eofWith: m&2 != 0})
			}
		}
		try(&chunkReader{eofWith: true})
		for k := 1; k < len(f.data); k++ {
			try(&chunkReader{cuts: []int{k}, eofWith: k%2 == 0})
		}
		if len(f.data) <= pairs {
			for k := 1; k < len(f.data); k++ {
				for j := k + 1; j < len(f.data); j++ {
					try(&chunkReader{cuts: []int{k, j}})
				}
			}
		}
		t.Extra(n)
	}
}

func init() {
	Register(&Property{ID: "C07", Level: "model_checking",
		Rule: "for every corpus file (all formats, generators' files within B deviations): all read schedules with one split, uniform chunk sizes, empty reads, end-of-file with data; all pairs of splits for small files",
		Scenarios: []*Scenario{
			{Name: "chunks", Gen: c07Gen, Check: c07Check(100), Quick: 1, Thorough: -1, What: "files within B deviations x all schedules with one split point"},
			{Name: "pairs", Gen: c07Gen, Check: c07Check(1500), Quick: -1, Thorough: 1, What: "the same with all pairs of split points for files up to 1500 bytes"},
		}})
}
