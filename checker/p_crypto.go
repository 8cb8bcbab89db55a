package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Symbolic models of the cryptographic library (Dolev-Yao style: every
// primitive is an uninterpreted function of the exact contents it is given)
// and the properties of the AES, password hash and bcrypt wrappers.

var byteT = types.Typ[types.Uint8]

type crypt struct {
	c      *Case
	x      *Exec
	outLen Lin // of the last bcrypt hash
}

func newCrypt(c *Case) *crypt {
	y := &crypt{c: c, x: c.X}
	c.X.H.Call = y.call
	return y
}

func (y *crypt) errVal(st *State, what string) Val {
	t := y.x.tok("err:"+what, types.Universe.Lookup("error").Type())
	t.NN = true
	y.x.event(st, VTerm{Fn: "fault:" + what, Args: []Val{t}})
	return t
}

// fill overwrites the first n elements of s.
func (x *Exec) fill(st *State, s Val, c Seq, n Lin) {
	if x.decideEQ(st, n) {
		return
	}
	d, ok := s.(VSlice)
	if !ok {
		x.fail("write to %s", x.show(s))
	}
	if x.H.Store != nil {
		idx := d.Off
		x.H.Store(st, VPtr{d.Obj, append(d.Path[:len(d.Path):len(d.Path)], PE{Idx: &idx})}, nil)
	}
	o := *st.objs[d.Obj]
	a := x.getPath(st, o.V, d.Path, o.T).(VArr)
	a.C = x.seqPut(st, a.C, d.Off, c, n)
	o.V = x.setPath(st, o.V, d.Path, a, o.T)
	st.objs[d.Obj] = &o
}

// digest is the first n bytes of an uninterpreted function of args.
func (y *crypt) digest(fn string, args []Val, n Lin) Seq {
	return seg(y.x.base(fn+"("+y.x.key(VTuple{args})+")", byteT), K(0), n)
}

func (y *crypt) snap(st *State, v Val) Val { return y.x.snapshot(st, v) }

func (y *crypt) sha(st *State, v Val) Seq { return y.digest("sha256", []Val{y.snap(st, v)}, K(32)) }

// block, mode: a cipher as a value.
func (y *crypt) block(key Val) VTerm { return VTerm{Fn: "aes", Args: []Val{key}, NN: true} }

func (y *crypt) overlap(st *State, dst, src Val) {
	d, ok1 := dst.(VSlice)
	s, ok2 := src.(VSlice)
	if !ok1 || !ok2 || d.Obj != s.Obj || len(d.Path) != len(s.Path) {
		return
	}
	if y.x.decideEQ(st, d.Off.Sub(s.Off)) {
		return
	}
	// disjoint?
	if y.x.decideGE(st, s.Off.Sub(d.Off.Add(s.Len))) || y.x.decideGE(st, d.Off.Sub(s.Off.Add(s.Len))) {
		return
	}
	panic(goPanic{"crypto", "invalid buffer overlap"})
}

func (y *crypt) uses(st *State, m Val) int {
	n := 0
	for _, p := range st.trace {
		if t, ok := p.V.(VTerm); ok && p.Kind == POne && t.Fn == "use" && y.x.key(t.Args[0]) == y.x.key(m) {
			n++
		}
	}
	return n
}

const gcmMax = (1 << 36) - 32

func (y *crypt) call(st *State, name string, args []Val, sig *types.Signature) ([]Ret, bool) {
	f := y.model(name, args, sig)
	if f == nil {
		return nil, false
	}
	return y.x.fork(st, f), true
}

func (y *crypt) model(name string, args []Val, sig *types.Signature) func(*State) []Ret {
	x := y.x
	byteS := types.NewSlice(byteT)
	_ = byteS
	recv := func() string {
		if len(args) > 0 {
			if t, ok := args[0].(VTerm); ok {
				return t.Fn
			}
		}
		return ""
	}
	fresh := func(kind string, n Lin) Seq {
		t := x.tok(kind, byteT)
		return seg(x.base(kind+"@"+itoa(t.Uniq), byteT), K(0), n)
	}
	readRand := func(st *State, buf Val) []Ret {
		n := x.lenOf(st, buf)
		bad := st.clone()
		c := fresh("rand", n)
		x.fill(st, buf, c, n)
		if len(c) > 0 {
			x.event(st, VTerm{Fn: "rand", Args: []Val{x.tok(c[0].B.Name, byteT), VNum{n}}})
		}
		m := x.symRange("n", big0, maxLen)
		bad.cons = append(bad.cons, GE(n, m))
		x.fill(bad, buf, fresh("partial", n), n)
		return []Ret{{st: st, vals: []Val{VNum{n}, VNil{}}}, {st: bad, vals: []Val{VNum{m}, y.errVal(bad, "rand")}}}
	}
	switch name {
	case "crypto/sha256.Sum256":
		return func(st *State) []Ret { return ret(st, VArr{y.sha(st, args[0]), K(32)}) }
	case "crypto/sha256.New":
		return func(st *State) []Ret {
			t := x.tok("sha", nil)
			t.NN = true
			st.ghost["sha@"+itoa(t.Uniq)] = VArr{nil, K(0)}
			return ret(st, t)
		}
	case "crypto/rand.Read":
		return func(st *State) []Ret { return readRand(st, args[0]) }
	case "io.ReadFull":
		if strings.HasSuffix(recv(), "global:crypto/rand.Reader") {
			return func(st *State) []Ret { return readRand(st, args[1]) }
		}
	case "crypto/aes.NewCipher":
		return func(st *State) []Ret {
			k := y.snap(st, args[0])
			n := x.lenOf(st, args[0])
			bad := st.clone()
			out := []Ret{{st: bad, vals: []Val{VNil{}, y.errVal(bad, "aes")}}}
			for _, z := range []int64{16, 24, 32} {
				if x.decideEQ(st, n.AddI(-z)) {
					return append(out, Ret{st: st, vals: []Val{y.block(k), VNil{}}})
				}
			}
			return out
		}
	case "crypto/cipher.NewCBCEncrypter", "crypto/cipher.NewCBCDecrypter", "crypto/cipher.NewCTR":
		kind := map[string]string{"crypto/cipher.NewCBCEncrypter": "cbcenc", "crypto/cipher.NewCBCDecrypter": "cbcdec", "crypto/cipher.NewCTR": "ctr"}[name]
		return func(st *State) []Ret {
			if x.isNil(st, args[0]) {
				panic(goPanic{"nil", "nil cipher block"})
			}
			if !x.decideEQ(st, x.lenOf(st, args[1]).AddI(-16)) {
				panic(goPanic{"crypto", "IV length must equal block size"})
			}
			return ret(st, VTerm{Fn: kind, Args: []Val{args[0], y.snap(st, args[1])}, NN: true})
		}
	case "crypto/cipher.NewGCM":
		return func(st *State) []Ret {
			if x.isNil(st, args[0]) {
				panic(goPanic{"nil", "nil cipher block"})
			}
			bad := st.clone()
			return []Ret{{st: st, vals: []Val{VTerm{Fn: "gcm", Args: []Val{args[0]}, NN: true}, VNil{}}}, {st: bad, vals: []Val{VNil{}, y.errVal(bad, "gcm")}}}
		}
	case "crypto/subtle.ConstantTimeCompare":
		return func(st *State) []Ret {
			if !x.decideEQ(st, x.lenOf(st, args[0]).Sub(x.lenOf(st, args[1]))) {
				return ret(st, VNum{K(0)})
			}
			if x.decideFact(st, y.ctEq(y.snap(st, args[0]), y.snap(st, args[1]))) {
				return ret(st, VNum{K(1)})
			}
			return ret(st, VNum{K(0)})
		}
	case "golang.org/x/crypto/argon2.IDKey", "golang.org/x/crypto/argon2.Key":
		fn := name[strings.LastIndex(name, ".")+1:]
		return func(st *State) []Ret {
			for _, k := range []int{2, 4} {
				if !x.decideGE(st, x.num(args[k]).AddI(-1)) {
					panic(goPanic{"crypto", "argon2: parameter too small"})
				}
			}
			n := x.num(args[5])
			return ret(st, x.newSlice(st, y.argon(fn, y.snap(st, args[0]), y.snap(st, args[1]), x.num(args[2]), x.num(args[3]), x.num(args[4]), n), n, n, byteT))
		}
	case "golang.org/x/crypto/bcrypt.GenerateFromPassword":
		return func(st *State) []Ret {
			x.event(st, VTerm{Fn: "bcrypt", Args: []Val{y.snap(st, args[0]), args[1]}})
			bad := st.clone()
			n := x.lenSym("n")
			y.outLen = n
			return []Ret{{st: st, vals: []Val{x.newSlice(st, fresh("bcrypt", n), n, n, byteT), VNil{}}}, {st: bad, vals: []Val{VNil{}, y.errVal(bad, "bcrypt")}}}
		}
	case "golang.org/x/crypto/bcrypt.CompareHashAndPassword":
		return func(st *State) []Ret {
			x.event(st, VTerm{Fn: "bcmp", Args: []Val{y.snap(st, args[0]), y.snap(st, args[1])}})
			bad := st.clone()
			mis := st.clone()
			mm := VTerm{Fn: "global:golang.org/x/crypto/bcrypt.ErrMismatchedHashAndPassword", NN: true, T: types.Universe.Lookup("error").Type()}
			x.event(mis, VTerm{Fn: "fault:mismatch", Args: []Val{mm}})
			return []Ret{{st: st, vals: []Val{VNil{}}}, {st: bad, vals: []Val{y.errVal(bad, "bcrypt")}}, {st: mis, vals: []Val{mm}}}
		}
	case "(*encoding/base64.Encoding).EncodeToString":
		return func(st *State) []Ret {
			return ret(st, VTerm{Fn: "b64", Args: []Val{args[0], y.snap(st, args[1])}, T: types.Typ[types.String]})
		}
	case "(*encoding/base64.Encoding).DecodeString":
		return func(st *State) []Ret {
			bad := st.clone()
			m := x.lenSym("n")
			out := []Ret{{st: bad, vals: []Val{x.newSlice(bad, fresh("partial", m), m, m, byteT), y.errVal(bad, "base64")}}}
			s := args[1]
			n := S(x.ST.Intern("b64len:"+x.key(VTuple{[]Val{args[0], s}}), "decoded", big0, maxLen))
			c := y.digest("b64dec", []Val{args[0], s}, n)
			x.event(st, VTerm{Fn: "decoded", Args: []Val{args[0], s}})
			return append(out, Ret{st: st, vals: []Val{x.newSlice(st, c, n, n, byteT), VNil{}}})
		}
	}
	switch r := recv(); {
	case name == "invoke:BlockSize" && (r == "aes" || r == "cbcenc" || r == "cbcdec"):
		return func(st *State) []Ret { return ret(st, VNum{K(16)}) }
	case name == "invoke:CryptBlocks" && (r == "cbcenc" || r == "cbcdec"):
		return func(st *State) []Ret {
			n := x.lenOf(st, args[2])
			if !x.decideEQ(st, n.Sub(x.ST.divFloor(n, bigOf(16)).MulI(16))) {
				panic(goPanic{"crypto", "input not full blocks"})
			}
			return y.stream(st, args, n)
		}
	case name == "invoke:XORKeyStream" && r == "ctr":
		return func(st *State) []Ret { return y.stream(st, args, x.lenOf(st, args[2])) }
	case name == "invoke:NonceSize" && r == "gcm":
		return func(st *State) []Ret { return ret(st, VNum{K(12)}) }
	case name == "invoke:Overhead" && r == "gcm":
		return func(st *State) []Ret { return ret(st, VNum{K(16)}) }
	case (name == "invoke:Seal" || name == "invoke:Open") && r == "gcm":
		return func(st *State) []Ret {
			dst, nonce, in, ad := args[1], args[2], args[3], args[4]
			if !x.decideEQ(st, x.lenOf(st, nonce).AddI(-12)) {
				panic(goPanic{"crypto", "incorrect nonce length given to GCM"})
			}
			n := x.lenOf(st, in)
			ins := []Val{args[0], y.snap(st, nonce), y.snap(st, in), y.snap(st, ad)}
			app := func(st *State, c Seq, m Lin) Val {
				tmp := x.newSlice(st, c, m, m, byteT)
				if x.decideEQ(st, m) {
					return dst
				}
				return x.appendSlice(st, dst, tmp, byteT)
			}
			if name == "invoke:Seal" {
				if !x.decideGE(st, KB(bigOf(gcmMax)).Sub(n)) {
					panic(goPanic{"crypto", "message too large for GCM"})
				}
				m := n.AddI(16)
				return ret(st, app(st, y.digest("seal", ins, m), m))
			}
			bad := st.clone()
			ez := []Ret{}
			if x.decideGE(st, n.AddI(-16)) {
				m := n.AddI(-16)
				// a failed Open may clear what it would have written
				bad.cons = append([]Con{}, st.cons...)
				if !isNilV(dst) {
					app(bad, Seq{{Kind: PRep, V: VNum{K(0)}, N: m}}, m)
				}
				ez = append(ez, Ret{st: st, vals: []Val{app(st, y.digest("open", ins, m), m), VNil{}}})
			} else {
				bad.cons = append([]Con{}, st.cons...)
			}
			return append(ez, Ret{st: bad, vals: []Val{VNil{}, y.errVal(bad, "auth")}})
		}
	case name == "invoke:Write" && r == "sha":
		return func(st *State) []Ret {
			t := args[0].(VTerm)
			k := "sha@" + itoa(t.Uniq)
			old := st.ghost[k].(VArr)
			c, n := x.content(st, args[1])
			st.ghost[k] = VArr{x.normSeq(st, seqCat(old.C, c)), old.N.Add(n)}
			return ret(st, VNum{n}, VNil{})
		}
	case name == "invoke:Sum" && r == "sha":
		return func(st *State) []Ret {
			t := args[0].(VTerm)
			d := y.digest("sha256", []Val{st.ghost["sha@"+itoa(t.Uniq)]}, K(32))
			return ret(st, x.appendSlice(st, args[1], x.newSlice(st, d, K(32), K(32), byteT), byteT))
		}
	}
	return nil
}

func isNilV(v Val) bool { _, ok := v.(VNil); return ok }

func (y *crypt) argon(fn string, pw, salt Val, t, m, p, n Lin) Seq {
	return y.digest("argon2."+fn, []Val{pw, salt, VNum{t}, VNum{m}, VNum{p}, VNum{n}}, n)
}

func (y *crypt) ctEq(a, b Val) Fact {
	if y.x.key(a) > y.x.key(b) {
		a, b = b, a
	}
	return Fact{"cteq", []Val{a, b}}
}

// stream runs a block or stream mode over n bytes.
func (y *crypt) stream(st *State, args []Val, n Lin) []Ret {
	x := y.x
	if !x.decideGE(st, x.lenOf(st, args[1]).Sub(n)) {
		panic(goPanic{"crypto", "output smaller than input"})
	}
	y.overlap(st, args[1], args[2])
	k := y.uses(st, args[0])
	c := y.streamed(args[0], y.snap(st, args[2]), k, n)
	x.event(st, VTerm{Fn: "use", Args: []Val{args[0]}})
	x.fill(st, args[1], c, n)
	return ret(st)
}

func (y *crypt) streamed(mode, src Val, k int, n Lin) Seq {
	return y.digest("stream", []Val{mode, src, VNum{K(int64(k))}}, n)
}

// faults counts the failures injected on a path.
func faults(st *State) int {
	n := 0
	for _, p := range st.trace {
		if t, ok := p.V.(VTerm); ok && p.Kind == POne && strings.HasPrefix(t.Fn, "fault:") {
			n++
		}
	}
	return n
}

// input makes a caller's byte slice.
func (y *crypt) input(st *State, name string) (VSlice, *Base, Lin) {
	x := y.x
	n := x.lenSym("len(" + name + ")")
	b := x.base(name, byteT)
	cap := x.lenSym("cap(" + name + ")")
	st.cons = append(st.cons, GE(cap, n))
	back := x.base(name+" behind", byteT)
	id := x.newObj(st, &Obj{Kind: OMem, V: VArr{seqCat(whole(b, n), whole(back, cap.Sub(n))), cap}})
	return VSlice{Obj: id, Off: K(0), Len: n, Cap: cap}, b, n
}

func (y *crypt) intact(st *State, v VSlice, b *Base, n Lin, name string) string {
	c, _ := y.x.content(st, VSlice{v.Obj, v.Path, v.Off, v.Cap, v.Cap})
	back := y.x.base(name+" behind", byteT)
	return y.x.seqIs(st, "the memory of "+name, c, seqCat(whole(b, n), whole(back, v.Cap.Sub(n))))
}

func runAES(r *Run, decrypt bool) {
	const pkg = "cryptox/aesx"
	for _, mode := range []string{"CBC", "CTR", "GCM"} {
		mode := mode
		fnName := "Encrypt" + mode
		if decrypt {
			fnName = "Decrypt" + mode
		}
		r.Obl(pkg+" "+fnName, func(c *Case) {
			x := c.X
			y := newCrypt(c)
			st := NewState()
			data, db, dn := y.input(st, "data")
			key, kb, kn := y.input(st, "key")
			if mode == "GCM" && !decrypt {
				st.cons = append(st.cons, LE(dn, KB(bigOf(gcmMax))))
			}
			kd := y.sha(st, key)
			blk := y.block(VArr{kd, K(32)})
			prefix := K(16)
			if mode == "GCM" {
				prefix = K(12)
			}
			ref := st.clone()
			fn := r.P.Fn(pkg, fnName)
			c.Each(c.Call(st, fn, nil, data, key), noPan(func(st *State, q Ret) string {
				if m := first(y.intact(st, data, db, dn, "data"), y.intact(st, key, kb, kn, "key")); m != "" {
					return m
				}
				failed := !x.isNil(st, q.vals[1])
				aligned := func(n Lin) bool { return x.decideEQ(st, n.Sub(x.ST.divFloor(n, bigOf(16)).MulI(16))) }
				must := faults(st) > 0
				if !decrypt && mode == "CBC" && !aligned(dn) {
					must = true
				}
				if decrypt && !x.decideGE(st, dn.Sub(prefix)) {
					must = true
				} else if decrypt && mode == "CBC" && !aligned(dn.Sub(prefix)) {
					must = true
				}
				if must && !failed {
					return "reports success although it must fail"
				}
				if !must && failed {
					return "reports an error although nothing failed"
				}
				got, n := x.content(st, q.vals[0])
				if failed {
					if !x.decideEQ(st, n) {
						return "returns data together with an error"
					}
					return ""
				}
				if !decrypt {
					// random prefix of this call, then the ciphertext under it
					head, rest := x.seqSplit(st, x.normSeq(st, got), prefix)
					head = x.normSeq(st, head)
					if len(head) != 1 || head[0].Kind != PSeg || !strings.HasPrefix(head[0].B.Name, "rand@") {
						return "the prefix " + x.showSeq(head) + " does not come from the random source"
					}
					if !x.decideEQ(st, head[0].From) || !x.decideEQ(st, head[0].To.Sub(prefix)) {
						return "the prefix " + x.showSeq(head) + " is not what the random source gave for it"
					}
					iv := VArr{head, prefix}
					var want Seq
					switch mode {
					case "CBC":
						want = y.streamed(VTerm{Fn: "cbcenc", Args: []Val{blk, iv}, NN: true}, y.snap(ref, data), 0, dn)
					case "CTR":
						want = y.streamed(VTerm{Fn: "ctr", Args: []Val{blk, iv}, NN: true}, y.snap(ref, data), 0, dn)
					case "GCM":
						want = y.digest("seal", []Val{VTerm{Fn: "gcm", Args: []Val{blk}, NN: true}, iv, y.snap(ref, data), VArr{nil, K(0)}}, dn.AddI(16))
					}
					return x.seqIs(st, "what follows the prefix", rest, want)
				}
				m := dn.Sub(prefix)
				iv := y.snap(st, VSlice{data.Obj, nil, K(0), prefix, prefix})
				ct := y.snap(st, VSlice{data.Obj, nil, prefix, m, m})
				var want Seq
				switch mode {
				case "CBC":
					want = y.streamed(VTerm{Fn: "cbcdec", Args: []Val{blk, iv}, NN: true}, ct, 0, m)
				case "CTR":
					want = y.streamed(VTerm{Fn: "ctr", Args: []Val{blk, iv}, NN: true}, ct, 0, m)
				case "GCM":
					want = y.digest("open", []Val{VTerm{Fn: "gcm", Args: []Val{blk}, NN: true}, iv, ct, VArr{nil, K(0)}}, m.AddI(-16))
				}
				return x.seqIs(st, "the result", got, want)
			}))
		})
	}
}

func init() {
	trust := []string{"crypto/aes, crypto/cipher, crypto/sha256, crypto/rand behave as documented; they are uninterpreted functions of the exact bytes they are given, and each may fail where its signature allows it"}
	register(&Prop{ID: "C18", Title: "AES encryption", Pkgs: []string{"cryptox/aesx"}, Min: 3, Trust: trust,
		Rule: "abstract interpretation of each encryption function over every data and key with symbolic models of the cryptographic library and a failing variant of every fallible call: provenance of the prefix, of the key and of the ciphertext on every outcome",
		Run:  func(r *Run) { runAES(r, false) }})
	register(&Prop{ID: "C19", Title: "AES decryption", Pkgs: []string{"cryptox/aesx"}, Min: 3, Trust: trust,
		Rule: "abstract interpretation of each decryption function over every input and key with symbolic models of the cryptographic library and a failing variant of every fallible call: split of the input, key derivation, results and errors on every outcome",
		Run:  func(r *Run) { runAES(r, true) }})
}

// ---- password hashes

const passPkg = "cryptox/passhashx"

type passAlg struct {
	level         string
	param         int64
	time, mem, th int64
}

var passAlgs = []passAlg{
	{"SecurityLevelHigh", 0, 20, 64 * 1024, 4},
	{"SecurityLevelLow", 1, 32, 4 * 1024, 1},
	{"SecurityLevelMobileHigh", 2, 4, 37 * 1024, 1},
	{"SecurityLevelMobileLow", 3, 8, 15 * 1024, 1},
}

const passSalt, passHash, passHead = 16, 32, 17

// passCase prepares a case with the packages initialised.
func passCase(c *Case, r *Run) *crypt {
	y := newCrypt(c)
	c.X.InitPkg(r.P.pkgs[passPkg+"/internal"])
	c.X.InitPkg(r.P.pkgs[passPkg])
	c.X.H.Peel = 16
	return y
}

// at is element i of a byte string.
func (y *crypt) at(st *State, v VSlice, i int64) Lin {
	idx := v.Off.AddI(i)
	return y.x.num(y.x.load(st, VPtr{v.Obj, append(v.Path[:len(v.Path):len(v.Path)], PE{Idx: &idx})}, byteT))
}

// le64 is the little-endian number in bytes i..i+7.
func (y *crypt) le64(st *State, v VSlice, i int64) Lin {
	s := K(0)
	for k := int64(0); k < 8; k++ {
		s = s.Add(y.at(st, v, i+k).Mul(pow2(uint(8 * k))))
	}
	return s
}

// ctKnown looks for a constant-time comparison of a and b on the path and
// returns its outcome.
func (y *crypt) ctKnown(st *State, a, b VArr) (eq, known bool) {
	same := func(p, q VArr) bool {
		ok, _ := y.x.seqEq(st, p.C, q.C)
		return ok
	}
	for _, f := range st.facts {
		if f.F.Pred != "cteq" {
			continue
		}
		p, q := f.F.Args[0].(VArr), f.F.Args[1].(VArr)
		if same(p, a) && same(q, b) || same(p, b) && same(q, a) {
			return f.V, true
		}
	}
	return false, false
}

func (y *crypt) passDigest(a passAlg, pw, salt Val) Seq {
	return y.argon("IDKey", pw, salt, K(a.time), K(a.mem), K(a.th), K(passHash))
}

// judge says what a verification of the record rec must report: the error of
// the first reason it finds, or "" with sure (must be nil).
func (y *crypt) judge(st *State, pw Val, rec VSlice) (bad string, sure bool) {
	x := y.x
	if !x.decideGE(st, rec.Len.AddI(-passHead)) {
		return "is shorter than its header", false
	}
	o1, o2 := y.le64(st, rec, 1), y.le64(st, rec, 9)
	if !x.decideGE(st, o1.AddI(-passHead)) || !x.decideGE(st, o2.Sub(o1)) || !x.decideGE(st, rec.Len.Sub(o2)) {
		return "has offsets outside itself", false
	}
	p := y.at(st, rec, 0)
	for _, a := range passAlgs {
		if !x.decideEQ(st, p.AddI(-a.param)) {
			continue
		}
		n := o2.Sub(o1)
		if !x.decideEQ(st, n.AddI(-passHash)) {
			return "has a digest of the wrong length", false
		}
		off := func(from, to Lin) VSlice {
			return VSlice{rec.Obj, rec.Path, rec.Off.Add(from), to.Sub(from), to.Sub(from)}
		}
		salt := y.snap(st, off(K(passHead), o1))
		eq, known := y.ctKnown(st, VArr{y.passDigest(a, pw, salt), K(passHash)}, y.snap(st, off(o1, o2)).(VArr))
		if !known {
			return "has a digest that was not compared in constant time with the one of the password", false
		}
		if !eq {
			return "has another digest", false
		}
		return "", x.decideEQ(st, o1.AddI(-passHead-passSalt)) && x.decideEQ(st, rec.Len.Sub(o2))
	}
	return "names no known algorithm", false
}

func runVerify(r *Run) {
	r.Obl(passPkg+" Verify", func(c *Case) {
		x := c.X
		y := passCase(c, r)
		st := NewState()
		pw, pb, pn := y.input(st, "password")
		rec, rb, rn := y.input(st, "record")
		pv := y.snap(st, pw)
		c.Each(c.Call(st, r.P.Fn(passPkg, "Verify"), nil, pw, rec), noPan(func(st *State, q Ret) string {
			if m := first(y.intact(st, pw, pb, pn, "password"), y.intact(st, rec, rb, rn, "record")); m != "" {
				return m
			}
			bad, sure := y.judge(st, pv, rec)
			if ok := x.isNil(st, q.vals[0]); ok && bad != "" {
				return "accepts a record that " + bad
			} else if !ok && sure {
				return "refuses a well-formed record with the right digest"
			}
			return ""
		}))
	})
	r.Obl(passPkg+" VerifyBase64", func(c *Case) {
		x := c.X
		y := passCase(c, r)
		st := NewState()
		pw, pb, pn := y.input(st, "password")
		pv := y.snap(st, pw)
		s := x.fresh("s", types.Typ[types.String])
		c.Each(c.Call(st, r.P.Fn(passPkg, "VerifyBase64"), nil, pw, s), noPan(func(st *State, q Ret) string {
			if m := y.intact(st, pw, pb, pn, "password"); m != "" {
				return m
			}
			ok := x.isNil(st, q.vals[0])
			dec := y.decodings(st)
			if len(dec) == 0 {
				if ok {
					return "accepts a text that was not decoded"
				}
				return ""
			}
			if len(dec) != 1 || x.key(dec[0].Args[1]) != x.key(s) || !rawURL(dec[0].Args[0]) {
				return "does not decode exactly the given text in the URL alphabet without padding"
			}
			n := y.decLen(dec[0])
			rec := x.newSlice(st, y.digest("b64dec", dec[0].Args, n), n, n, byteT)
			bad, sure := y.judge(st, pv, rec)
			if ok && bad != "" {
				return "accepts a record that " + bad
			} else if !ok && sure {
				return "refuses a well-formed record with the right digest"
			}
			return ""
		}))
	})
}

func rawURL(v Val) bool {
	t, ok := v.(VTerm)
	return ok && strings.HasSuffix(t.Fn, "global:encoding/base64.RawURLEncoding")
}

func (y *crypt) decLen(t VTerm) Lin {
	return S(y.x.ST.Intern("b64len:"+y.x.key(VTuple{t.Args}), "decoded", big0, maxLen))
}

func (y *crypt) decodings(st *State) (ds []VTerm) {
	for _, p := range st.trace {
		if t, ok := p.V.(VTerm); ok && p.Kind == POne && t.Fn == "decoded" {
			ds = append(ds, t)
		}
	}
	return
}

// record is what hashing must return for a, given the content found.
func (y *crypt) recordIs(st *State, got Seq, n Lin, a passAlg, pv Val) string {
	x := y.x
	if !x.decideEQ(st, n.AddI(-passHead-passSalt-passHash)) {
		return "the record is " + x.l(n) + " bytes long"
	}
	var head Seq
	one := func(v int64) { head = append(head, Piece{Kind: POne, V: VNum{K(v)}, N: K(1)}) }
	one(a.param)
	for _, o := range []int64{passHead + passSalt, passHead + passSalt + passHash} {
		for k := 0; k < 8; k++ {
			one(o >> (8 * k) & 255)
		}
	}
	gh, rest := x.seqSplit(st, x.normSeq(st, got), K(passHead))
	if m := x.seqIs(st, "the header", gh, head); m != "" {
		return m
	}
	salt, dig := x.seqSplit(st, rest, K(passSalt))
	salt = x.normSeq(st, salt)
	if len(salt) != 1 || salt[0].Kind != PSeg || !strings.HasPrefix(salt[0].B.Name, "rand@") ||
		!x.decideEQ(st, salt[0].From) || !x.decideEQ(st, salt[0].To.AddI(-passSalt)) {
		return "the salt " + x.showSeq(salt) + " is not what the random source gave for it"
	}
	return x.seqIs(st, "the digest", dig, y.passDigest(a, pv, VArr{salt, K(passSalt)}))
}

// levels splits on the security level.
func (y *crypt) level(st *State, r *Run, v Lin) (passAlg, bool) {
	for _, a := range passAlgs {
		if y.x.decideEQ(st, v.Sub(KB(constInt(r, passPkg, a.level)))) {
			return a, true
		}
	}
	return passAlg{}, false
}

func runHash(r *Run) {
	for _, b64 := range []bool{false, true} {
		b64 := b64
		name := "Hash"
		if b64 {
			name = "HashBase64"
		}
		r.Obl(passPkg+" "+name, func(c *Case) {
			x := c.X
			y := passCase(c, r)
			st := NewState()
			pw, pb, pn := y.input(st, "password")
			pv := y.snap(st, pw)
			fn := r.P.Fn(passPkg, name)
			lv := x.fresh("level", fn.Signature.Params().At(1).Type())
			c.Each(c.Call(st, fn, nil, pw, lv), noPan(func(st *State, q Ret) string {
				if m := y.intact(st, pw, pb, pn, "password"); m != "" {
					return m
				}
				a, known := y.level(st, r, x.num(lv))
				failed := !x.isNil(st, q.vals[1])
				if must := !known || faults(st) > 0; must != failed {
					if must {
						return "reports success although it must fail"
					}
					return "reports an error although nothing failed"
				}
				v := q.vals[0]
				if failed {
					if n := x.lenOf(st, v); !x.decideEQ(st, n) {
						return "returns a hash together with an error"
					}
					return ""
				}
				if b64 {
					t, ok := v.(VTerm)
					if !ok || t.Fn != "b64" || !rawURL(t.Args[0]) {
						return "the text " + x.show(v) + " is not the record in the URL alphabet without padding"
					}
					arr := t.Args[1].(VArr)
					return y.recordIs(st, arr.C, arr.N, a, pv)
				}
				got, n := x.content(st, v)
				return y.recordIs(st, got, n, a, pv)
			}))
		})
	}
	// what was hashed is accepted, and only with the same digest
	for _, a := range passAlgs {
		a := a
		r.Obl(passPkg+" Hash then Verify, "+a.level, func(c *Case) {
			x := c.X
			y := passCase(c, r)
			st := NewState()
			pw, _, _ := y.input(st, "password")
			pv := y.snap(st, pw)
			for _, q := range c.Call(st, r.P.Fn(passPkg, "Hash"), nil, pw, VNum{KB(constInt(r, passPkg, a.level))}) {
				if q.pan != nil {
					c.bad(q.st, "Hash %s", panMsg(q.pan))
					continue
				}
				if !x.isNil(q.st, q.vals[1]) {
					continue
				}
				rec, ok := q.vals[0].(VSlice)
				if !ok {
					c.bad(q.st, "Hash returns %s", x.show(q.vals[0]))
					continue
				}
				c.Each(c.Call(q.st, r.P.Fn(passPkg, "Verify"), nil, pw, rec), noPan(func(st *State, q Ret) string {
					dig := y.snap(st, VSlice{rec.Obj, rec.Path, rec.Off.AddI(passHead + passSalt), K(passHash), K(passHash)}).(VArr)
					salt := y.snap(st, VSlice{rec.Obj, rec.Path, rec.Off.AddI(passHead), K(passSalt), K(passSalt)})
					eq, known := y.ctKnown(st, VArr{y.passDigest(a, pv, salt), K(passHash)}, dig)
					if !known {
						return "the digest is not compared in constant time with the one of the password"
					}
					if eq != x.isNil(st, q.vals[0]) {
						return "acceptance differs from the comparison"
					}
					return ""
				}))
			}
		})
	}
}

func constInt(r *Run, pkg, name string) *big.Int {
	nc, ok := r.P.pkgs[pkg].Members[name].(*ssa.NamedConst)
	if !ok {
		panic(undecided{"no constant " + name + " in " + pkg})
	}
	v, _ := new(big.Int).SetString(nc.Value.Value.ExactString(), 10)
	return v
}

func init() {
	trust := []string{"argon2.IDKey, subtle.ConstantTimeCompare, crypto/rand and encoding/base64 behave as documented; argon2 is an uninterpreted function of password, salt, time, memory, threads and length"}
	pk := []string{passPkg, passPkg + "/internal"}
	register(&Prop{ID: "C20", Title: "password verification", Pkgs: pk, Min: 2, Trust: trust,
		Rule: "abstract interpretation of the verification functions on every password and record: acceptance implies a well-formed record, a known algorithm and a constant-time comparison of the full digest of password and stored salt under that algorithm's costs",
		Run:  runVerify})
	register(&Prop{ID: "C21", Title: "password hashing", Pkgs: pk, Min: 6, Trust: trust,
		Rule: "abstract interpretation of the hashing functions on every password and level with a failing random source: header, provenance of the salt, arguments of the digest, errors; then verification of the record made",
		Run:  runHash})
}

// ---- bcrypt

func runBcrypt(r *Run) {
	const pkg = "cryptox/bcryptx"
	const maxLen = 72
	events := func(st *State, kind string) (ts []VTerm) {
		for _, p := range st.trace {
			if t, ok := p.V.(VTerm); ok && p.Kind == POne && t.Fn == kind {
				ts = append(ts, t)
			}
		}
		return
	}
	fault := func(st *State) Val {
		for _, p := range st.trace {
			if t, ok := p.V.(VTerm); ok && p.Kind == POne && strings.HasPrefix(t.Fn, "fault:") {
				return t.Args[0]
			}
		}
		return nil
	}
	tooLong := func(x *Exec, st *State, v Val) string {
		g := r.P.pkgs[pkg].Members["ErrPasswordTooLong"].(*ssa.Global)
		o := st.objs[x.global(st, g)]
		return x.valIs(st, "the error", v, o.V)
	}
	for _, name := range []string{"Encrypt", "Decrypt"} {
		name := name
		r.Obl(pkg+" "+name, func(c *Case) {
			x := c.X
			y := newCrypt(c)
			x.InitPkg(r.P.pkgs[pkg])
			st := NewState()
			pw, pb, pn := y.input(st, "password")
			enc, eb, en := y.input(st, "hash")
			pv, ev := y.snap(st, pw), y.snap(st, enc)
			args := []Val{pw}
			if name == "Decrypt" {
				args = []Val{enc, pw}
			}
			c.Each(c.Call(st, r.P.Fn(pkg, name), nil, args...), noPan(func(st *State, q Ret) string {
				if m := first(y.intact(st, pw, pb, pn, "password"), y.intact(st, enc, eb, en, "hash")); m != "" {
					return m
				}
				gens, cmps := events(st, "bcrypt"), events(st, "bcmp")
				v, e := q.vals[0], q.vals[1]
				if !x.decideGE(st, K(maxLen).Sub(pn)) {
					if len(gens)+len(cmps) > 0 {
						return "passes a password longer than 72 bytes to bcrypt"
					}
					if name == "Decrypt" {
						return first(x.boolIs(st, "result", v, false), tooLong(x, st, e))
					}
					if n := x.lenOf(st, v); !x.decideEQ(st, n) {
						return "returns a hash together with an error"
					}
					return tooLong(x, st, e)
				}
				f := fault(st)
				if f == nil && !x.isNil(st, e) {
					return "reports an error although bcrypt did not"
				}
				if f != nil {
					if m := x.valIs(st, "the error", e, f); m != "" {
						return m
					}
				}
				if name == "Decrypt" {
					if len(gens) != 0 || len(cmps) != 1 {
						return "does not compare exactly once"
					}
					return first(x.valIs(st, "compared hash", cmps[0].Args[0], ev), x.valIs(st, "compared password", cmps[0].Args[1], pv), x.boolIs(st, "result", v, f == nil))
				}
				if len(gens) != 1 || len(cmps) != 0 {
					return "does not hash exactly once"
				}
				if m := first(x.valIs(st, "hashed password", gens[0].Args[0], pv), x.numIs(st, "cost", gens[0].Args[1], K(10))); m != "" {
					return m
				}
				got, n := x.content(st, v)
				if f != nil {
					if !x.decideEQ(st, n) {
						return "returns a hash together with an error"
					}
					return ""
				}
				got = x.normSeq(st, got)
				if len(got) == 0 && x.decideEQ(st, n) {
					return ""
				}
				if len(got) != 1 || got[0].Kind != PSeg || !strings.HasPrefix(got[0].B.Name, "bcrypt@") || !x.decideEQ(st, got[0].From) || !x.decideEQ(st, n.Sub(y.outLen)) {
					return "the result " + x.showSeq(got) + " is not what bcrypt returned"
				}
				return ""
			}))
		})
	}
}

func init() {
	register(&Prop{ID: "C22", Title: "bcrypt wrapper", Pkgs: []string{"cryptox/bcryptx"}, Min: 2,
		Trust: []string{"golang.org/x/crypto/bcrypt behaves as documented, DefaultCost is 10; hashing and comparing are uninterpreted and may fail"},
		Rule:  "abstract interpretation of both wrappers on every password and hash with failing bcrypt calls: no call for more than 72 bytes, exact arguments, results and errors on every outcome",
		Run:   runBcrypt})
}
