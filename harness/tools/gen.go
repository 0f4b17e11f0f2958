package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"

	"github.com/danhhz/zeropb/generate"
	"github.com/golang/protobuf/proto"
)

type outFile struct {
	Name string `json:"name"`
	Sum  string `json:"sum"`
}

type genResult struct {
	Err   string    `json:"err"` // "", "error" or "panic"
	Why   string    `json:"why"`
	Files []outFile `json:"files"`
	Whole string    `json:"whole"`
}

func lines(path string, f func(line []byte)) {
	file, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	sc := bufio.NewScanner(file)
	sc.Buffer(make([]byte, 1<<20), 64<<20)
	for sc.Scan() {
		f(sc.Bytes())
	}
	if err := sc.Err(); err != nil {
		panic(err)
	}
}

func sum(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:8])
}

func generateOnce(b []byte) (r genResult) {
	defer func() {
		if e := recover(); e != nil {
			r = genResult{Err: "panic", Why: fmt.Sprint(e), Files: []outFile{}}
		}
	}()
	r.Files = []outFile{}
	var req generate.CodeGeneratorRequest
	if err := proto.Unmarshal(b, &req); err != nil {
		return genResult{Err: "error", Why: err.Error(), Files: r.Files}
	}
	res, err := generate.Generate(&req)
	if err != nil {
		return genResult{Err: "error", Why: err.Error(), Files: r.Files}
	}
	if res.Error != nil {
		return genResult{Err: "error", Why: res.GetError(), Files: r.Files}
	}
	whole, err := proto.Marshal(res)
	if err != nil {
		return genResult{Err: "error", Why: err.Error(), Files: r.Files}
	}
	r.Whole = sum(whole)
	for _, f := range res.File {
		r.Files = append(r.Files, outFile{f.GetName(), sum([]byte(f.GetContent()))})
	}
	return r
}

// gen answers requests, all in this process. A line of input is a request in
// base64, and a line of output is what Generate made of it.
func gen(args []string) {
	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()
	lines(args[0], func(line []byte) {
		b, err := base64.StdEncoding.DecodeString(string(line))
		if err != nil {
			panic(err)
		}
		j, _ := json.Marshal(generateOnce(b))
		out.Write(append(j, '\n'))
	})
}

// text tells for each line {"req", "text"} whether the text parses to the
// request.
func text(args []string) {
	lines(args[0], func(line []byte) {
		var x struct{ Req, Text []byte }
		if err := json.Unmarshal(line, &x); err != nil {
			panic(err)
		}
		var want, got generate.CodeGeneratorRequest
		if err := proto.Unmarshal(x.Req, &want); err != nil {
			fmt.Println(`"not a request"`)
			return
		}
		if err := proto.UnmarshalText(string(x.Text), &got); err != nil {
			fmt.Println(`"not a text form"`)
		} else if !proto.Equal(&want, &got) {
			fmt.Println(`"another request"`)
		} else {
			fmt.Println(`"same"`)
		}
	})
}
