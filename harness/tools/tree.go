package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"syscall"

	"github.com/danhhz/zeropb/generate"
)

type treeArg struct {
	K string   `json:"k"`
	N int      `json:"n"`
	V [][2]int `json:"v"`
}

type treeStep struct {
	Indent [][2]int    `json:"indent"`
	Budget int         `json:"budget"`
	Strict bool        `json:"strict"`
	Calls  [][]treeArg `json:"calls"`
	Out    [][2]int    `json:"out"`
	Failed bool        `json:"failed"`
}

func unrle(runs [][2]int) []byte {
	var b []byte
	for _, r := range runs {
		b = append(b, bytes.Repeat([]byte{byte(r[0])}, r[1])...)
	}
	return b
}

type stringer struct{ s string }

func (s stringer) String() string { return s.s }

type ptrStringer struct{ s string }

func (s *ptrStringer) String() string { return s.s }

func (a treeArg) arg() interface{} {
	v := unrle(a.V)
	switch a.K {
	case "indent":
		var x generate.StringTreeIndent
		for i := 0; i < a.N; i++ {
			x = x.Next()
		}
		return x
	case "int":
		return int32(a.N)
	case "str":
		return string(v)
	case "bytes":
		if v == nil {
			v = []byte{}
		}
		return v
	case "nilbytes":
		return []byte(nil)
	case "stringer":
		return stringer{string(v)}
	case "ptr":
		return &ptrStringer{string(v)}
	case "enum":
		x := generate.FieldDescriptorProto_TYPE_BOOL
		if x.String() != string(v) {
			panic("enum " + x.String())
		}
		return x
	}
	panic(a.K)
}

// temporary is an error that may go away.
type temporary struct{ error }

func (temporary) Temporary() bool { return true }
func (temporary) Timeout() bool   { return true }

var kinds = []error{
	errors.New("failure"), io.ErrShortWrite, io.EOF, syscall.EINTR, syscall.EAGAIN, os.ErrDeadlineExceeded,
	io.ErrClosedPipe, &os.PathError{Op: "write", Path: "x", Err: syscall.ENOSPC}, temporary{errors.New("later")},
}

// sink accepts budget bytes. Then it fails, each time with another error, or
// only once.
type sink struct {
	budget    int
	strict    bool
	kind      error
	got       []byte
	first     error
	failures  int
	late      int // writes after the first failure
	transient bool
}

func (s *sink) Write(p []byte) (int, error) {
	if s.first != nil {
		s.late++
		if s.transient {
			return len(p), nil
		}
	}
	if room := s.budget - len(s.got); s.first == nil && (len(p) < room || len(p) == room && (!s.strict || room == 0)) {
		s.got = append(s.got, p...)
		return len(p), nil
	}
	n := 0
	if s.first == nil {
		n = s.budget - len(s.got)
		s.got = append(s.got, p[:n]...)
	}
	s.failures++
	err := fmt.Errorf("failure %d", s.failures)
	if s.first == nil {
		err = s.kind
		s.first = err
	}
	return n, err
}

// run returns what is wrong, or "".
func (st treeStep) run(transient bool, kind error) (wrong string) {
	defer func() {
		if e := recover(); e != nil {
			wrong = fmt.Sprint("panic: ", e)
		}
	}()
	s := &sink{budget: st.Budget, strict: st.Strict, kind: kind, transient: transient}
	t := generate.NewStringTree(s, string(unrle(st.Indent)))
	if t.Error() != nil {
		return "an error before the first write"
	}
	for _, c := range st.Calls {
		args := []interface{}{}
		for _, a := range c {
			args = append(args, a.arg())
		}
		t.Write(args...)
		if err := t.Error(); s.first != nil && !errors.Is(err, s.first) || (err == nil) != (s.first == nil) {
			return fmt.Sprintf("Error() is %v, the first failure was %v", err, s.first)
		}
	}
	if want := unrle(st.Out); !bytes.Equal(s.got, want) {
		return fmt.Sprintf("wrote %.200q, not %.200q", s.got, want)
	}
	if s.late > 0 {
		return fmt.Sprintf("%d writes after the failure", s.late)
	}
	if (t.Error() != nil) != st.Failed {
		return fmt.Sprintf("Error() is %v", t.Error())
	}
	return ""
}

func tree(args []string) {
	f, err := os.Open(args[0])
	if err != nil {
		panic(err)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 64<<20)
	n, bad, steps := 0, 0, 0
	for sc.Scan() {
		var st treeStep
		if err := json.Unmarshal(sc.Bytes(), &st); err != nil {
			panic(err)
		}
		// Every kind of error for the writes that fail, or some kind where none does.
		for k, kind := range kinds {
			if k > 0 && !st.Failed {
				break
			}
			for _, transient := range []bool{false, true} {
				n++
				if w := st.run(transient, kind); w != "" {
					if bad++; bad <= 20 {
						b, _ := json.Marshal(map[string]interface{}{"wrong": w, "transient": transient,
							"error": kind.Error(), "behaviour": st})
						fmt.Println("@BAD " + string(b))
					}
				}
			}
		}
		steps++
	}
	fmt.Printf("@DONE {\"runs\":%d,\"bad\":%d,\"steps\":%d}\n", n, bad, steps)
}
