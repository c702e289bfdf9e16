#!/usr/bin/env python3
"""Generate the std-library overlay used to build the conformance harness.

The overlay adds *hook variables* (nil by default) to a few std packages so the
harness can run every CTng process in one test binary under virtual time:
  net/http : outgoing requests (Transport.RoundTrip), ListenAndServe, Handle
  os       : Exit (log.Fatal)
  sync     : lock acquisition points (controlled scheduling)
  crypto/rsa: GenerateKey (pre-generated key pool, speed only)
Nothing in /repo is changed by it.
"""
import json, os, sys, subprocess

def patch(text, old, new, fn):
    if text.count(old) != 1:
        sys.exit(f"overlay: pattern occurs {text.count(old)}x in {fn}: {old!r}")
    return text.replace(old, new)

def main(outdir):
    goroot = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip()
    os.makedirs(outdir, exist_ok=True)
    rep = {}
    def do(rel, subs, tail=""):
        fn = os.path.join(goroot, "src", rel)
        t = open(fn).read()
        for o, n in subs:
            t = patch(t, o, n, fn)
        t += tail
        dst = os.path.join(outdir, rel.replace("/", "_"))
        open(dst, "w").write(t)
        rep[fn] = dst
    do("net/http/roundtrip.go", [(
        "\treturn t.roundTrip(req)\n",
        "\tif VerifRoundTrip != nil {\n\t\treturn VerifRoundTrip(req)\n\t}\n\treturn t.roundTrip(req)\n")],
        "\nvar VerifRoundTrip func(*Request) (*Response, error)\n")
    do("net/http/server.go", [
        ("func Handle(pattern string, handler Handler) {\n",
         "func Handle(pattern string, handler Handler) {\n\tif VerifHandle != nil && VerifHandle(pattern, handler) {\n\t\treturn\n\t}\n"),
        ("func (s *Server) ListenAndServe() error {\n",
         "func (s *Server) ListenAndServe() error {\n\tif VerifListen != nil {\n\t\treturn VerifListen(s.Addr, s.Handler)\n\t}\n")],
        "\nvar VerifHandle func(pattern string, h Handler) bool\nvar VerifListen func(addr string, h Handler) error\n")
    do("os/proc.go", [("func Exit(code int) {\n",
        "func Exit(code int) {\n\tif VerifExit != nil {\n\t\tVerifExit(code)\n\t}\n")],
        "\nvar VerifExit func(code int)\n")
    do("sync/mutex.go", [("\tisync \"internal/sync\"\n", "\tisync \"internal/sync\"\n\t\"unsafe\"\n"), ("func (m *Mutex) Lock() {\n",
        "func (m *Mutex) Lock() {\n\tif VerifLock != nil && VerifLock(m.TryLock, unsafe.Pointer(m), 0) {\n\t\treturn\n\t}\n")],
        "\n// VerifLock, when set, may take over acquiring a lock: it returns true when it acquired it through try.\n// kind: 0 Mutex, 1 RWMutex for reading, 2 RWMutex for writing.\nvar VerifLock func(try func() bool, m unsafe.Pointer, kind int) bool\n\n// VerifPointHook, when set, is called at every scheduling point of instrumented code.\nvar VerifPointHook func()\n\nfunc VerifPoint() {\n\tif VerifPointHook != nil {\n\t\tVerifPointHook()\n\t}\n}\n")
    do("sync/rwmutex.go", [
        ("func (rw *RWMutex) RLock() {\n",
         "func (rw *RWMutex) RLock() {\n\tif VerifLock != nil && VerifLock(rw.TryRLock, unsafe.Pointer(rw), 1) {\n\t\treturn\n\t}\n"),
        ("func (rw *RWMutex) Lock() {\n",
         "func (rw *RWMutex) Lock() {\n\tif VerifLock != nil && VerifLock(rw.TryLock, unsafe.Pointer(rw), 2) {\n\t\treturn\n\t}\n")])
    do("crypto/rsa/rsa.go", [("func GenerateKey(random io.Reader, bits int) (*PrivateKey, error) {\n",
        "func GenerateKey(random io.Reader, bits int) (*PrivateKey, error) {\n\tif VerifGenerateKey != nil {\n\t\tif k := VerifGenerateKey(bits); k != nil {\n\t\t\treturn k, nil\n\t\t}\n\t}\n")],
        "\nvar VerifGenerateKey func(bits int) *PrivateKey\n")
    ov = os.path.join(outdir, "overlay.json")
    json.dump({"Replace": rep}, open(ov, "w"))
    print(ov)

main(sys.argv[1])
