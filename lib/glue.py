"""Go glue: adapts one generated message type to the driver's Msg interface."""
import schemas

GO = {"bool": "bool", "int32": "int32", "int64": "int64", "uint32": "uint32",
      "uint64": "uint64", "sint32": "int32", "sint64": "int64", "fixed32": "uint32",
      "fixed64": "uint64", "sfixed32": "int32", "sfixed64": "int64",
      "double": "float64", "float": "float32", "string": "string",
      "bytes": "[]byte", "enum": "uint32"}

TO = {"bool": "fromBool(%s)", "float64": "le64(math.Float64bits(%s))",
      "float32": "le32(math.Float32bits(%s))", "string": "[]byte(%s)",
      "[]byte": "%s"}
OF = {"bool": "v[0] != 0", "float64": "math.Float64frombits(u64(v))",
      "float32": "math.Float32frombits(u32(v))", "string": "rawString(v)",
      "[]byte": "v"}
for _t in ("int32", "uint32"):
    TO[_t], OF[_t] = "le32(uint32(%s))", _t + "(u32(v))"
for _t in ("int64", "uint64"):
    TO[_t], OF[_t] = "le64(uint64(%s))", _t + "(u64(v))"
SINK = {"bool": "sinkBool", "float64": "sinkF64", "float32": "sinkF32",
        "string": "sinkStr", "[]byte": "sinkBytes", "int32": "sinkI32",
        "uint32": "sinkU32", "int64": "sinkI64", "uint64": "sinkU64"}


def message(pkg, name, fields, go_name=schemas.go_name):
    w = "w_%s_%s" % (pkg, name)
    t = "%s.%s" % (pkg, name)
    sing = [f for f in fields if f[2] != "repeated" and f[3] != "msg"]
    subs = [f for f in fields if f[2] != "repeated" and f[3] == "msg"]
    reps = [f for f in fields if f[2] == "repeated" and f[3] == "msg"]
    L = []

    def p(*a):
        L.append(" ".join(a))

    def elem(f):
        return "w_%s_%s" % (pkg, f[4])

    def switch(head, fs, body, end="panic(f)"):
        p("func (w *%s) %s {" % (w, head))
        p("switch f {")
        for f in fs:
            p("case %d:" % f[1])
            p(body(f))
        p("}")
        p(end)
        p("}")

    p("type %s struct { p *%s }" % (w, t))
    p("func (w *%s) Encode() []byte { return w.p.Encode() }" % w)
    p("func (w *%s) Decode(b []byte) error { return w.p.Decode(b) }" % w)
    p("func (w *%s) Reset(b []byte) { w.p.Reset(b) }" % w)
    p("func (w *%s) Zero() { *w.p = %s{} }" % (w, t))
    p("func (w *%s) Size() int { return int(unsafe.Sizeof(*w.p)) }" % w)
    p("func (w *%s) Ptr() unsafe.Pointer { return unsafe.Pointer(w.p) }" % w)
    p("func (w *%s) At(q unsafe.Pointer) Msg { return &%s{(*%s)(q)} }" % (w, w, t))
    switch("Get(f int) []byte", sing,
           lambda f: "return " + TO[GO[f[3]]] % ("w.p.%s()" % go_name(f[0])))
    switch("Set(f int, v []byte)", sing,
           lambda f: "w.p.Set%s(%s); return" % (go_name(f[0]), OF[GO[f[3]]]))
    switch("Touch(f int)", sing,
           lambda f: "%s = w.p.%s(); return" % (SINK[GO[f[3]]], go_name(f[0])))
    switch("GetSub(f int, x Msg) (bool, error)", subs,
           lambda f: "return w.p.%s(x.(*%s).p)" % (go_name(f[0]), elem(f)))
    switch("SetSub(f int, x Msg)", subs,
           lambda f: "w.p.Set%s(*x.(*%s).p); return" % (go_name(f[0]), elem(f)))
    switch("App(f int, x Msg)", reps,
           lambda f: "w.p.AppendTo%s(*x.(*%s).p); return" % (go_name(f[0]), elem(f)))
    switch("Iter(f int) Iter", reps,
           lambda f: "it := w.p.%s(); return func(x Msg) (bool, error) { return it.Next(x.(*%s).p) }"
           % (go_name(f[0]), elem(f)))
    switch("TouchIter(f int, x Msg) int", reps,
           lambda f: "it, n := w.p.%s(), 0; for { ok, err := it.Next(x.(*%s).p); "
                     "if err != nil { panic(err) }; if !ok { return n }; n++ }"
           % (go_name(f[0]), elem(f)))
    p("func init() { register(&Type{Name: %s, New: func() Msg { return &%s{new(%s)} }, Fields: []Field{"
      % (q(name if pkg == "vcore" else pkg + "." + name), w, t))
    for f in fields:
        el = "" if f[3] != "msg" else (f[4] if pkg == "vcore" else pkg + "." + f[4])
        p("{F: %d, K: %s, R: %s, Elem: %s}," % (
            f[1], q(f[3]), "true" if f[2] == "repeated" else "false", q(el)))
    p("}}) }")
    return "\n".join(L) + "\n"


def q(s):
    return '"%s"' % s


def package(module, pkg, messages, go_name=schemas.go_name):
    body = "".join(message(pkg, n, fs, go_name) for n, fs in messages)
    return ('// Generated by lib/glue.py.\npackage main\n\nimport (\n\t"math"\n\t"unsafe"\n\n\t%s "%s/gen/%s"\n)\n\n'
            'var _ = math.Pi\nvar _ unsafe.Pointer\n\n' % (pkg, module, pkg)) + body
