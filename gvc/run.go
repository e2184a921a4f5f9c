package zzgvc

import (
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"strings"
	"time"
)

// Gen draws concrete inputs.
type Gen struct {
	R         *rand.Rand
	FaultRate int
	Pool      []string
	MaxLen    int
	SmallInts bool
	Log       []string
}

// Cur is the generator of the running case.
var Cur = &Gen{R: rand.New(rand.NewSource(1)), MaxLen: 12}

var boundary = []int64{0, 1, -1, 2, 3, 7, 8, 9, 10, 63, 64, 127, 128, 255, 256, 1000, 1001, 65535, 1 << 31, 1<<31 - 1, -(1 << 31), 1<<62 + 1, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, -2, -8, -128, -129}

// Bool draws a bool.
func (g *Gen) Bool() bool { return g.R.Intn(2) == 0 }

// Int64 draws an int64, biased to boundaries.
func (g *Gen) Int64() int64 {
	if g.SmallInts && g.R.Intn(4) != 0 {
		return int64(g.R.Intn(12)) - 2
	}
	if len(dictInts) > 0 && g.R.Intn(5) == 0 {
		return dictInts[g.R.Intn(len(dictInts))] + int64(g.R.Intn(3)) - 1
	}
	switch g.R.Intn(5) {
	case 0:
		return boundary[g.R.Intn(len(boundary))]
	case 1:
		return int64(g.R.Intn(20)) - 5
	case 2:
		return boundary[g.R.Intn(len(boundary))] + int64(g.R.Intn(5)) - 2
	case 3:
		return int64(g.R.Uint64()) >> uint(g.R.Intn(64))
	}
	return int64(g.R.Uint64())
}

// dictionary mined from the source under test
var dictInts []int64
var dictLens []int
var dictStrs []string

func loadDict(path string) {
	b, err := ioutil.ReadFile(path)
	if err != nil {
		return
	}
	var d struct {
		Ints []int64
		Strs []string
	}
	if json.Unmarshal(b, &d) != nil {
		return
	}
	dictInts, dictStrs = d.Ints, d.Strs
	for _, n := range d.Ints {
		if n > 8 && n < 5000 {
			dictLens = append(dictLens, int(n))
		}
	}
}

var bnd = []byte{0, 0, 1, 255, 255, 254, 127, 128, 8, 247, 'a', 'b'}

// Str draws a byte string, re-using earlier ones and mutating them.
func (g *Gen) Str() string {
	if len(g.Pool) > 0 {
		switch g.R.Intn(6) {
		case 0, 1:
			return g.Pool[g.R.Intn(len(g.Pool))]
		case 2:
			s := []byte(g.Pool[g.R.Intn(len(g.Pool))])
			if len(s) > 0 {
				switch g.R.Intn(4) {
				case 0:
					s[g.R.Intn(len(s))] = bnd[g.R.Intn(len(bnd))]
				case 1:
					s = s[:g.R.Intn(len(s)+1)]
				case 2:
					s = append(s, bnd[g.R.Intn(len(bnd))])
				case 3:
					s[g.R.Intn(len(s))]++
				}
			} else {
				s = append(s, bnd[g.R.Intn(len(bnd))])
			}
			return g.add(string(s))
		}
	}
	n := g.R.Intn(g.MaxLen + 1)
	switch x := g.R.Intn(240); {
	case x < 20:
		n = g.R.Intn(40)
	case x < 28:
		n = g.R.Intn(150)
	case x < 31:
		n = g.R.Intn(700)
	case x < 32:
		n = g.R.Intn(5000)
	case x < 42 && len(dictLens) > 0:
		n = dictLens[g.R.Intn(len(dictLens))] + g.R.Intn(3) - 1
	case x < 47 && len(dictStrs) > 0:
		return g.add(dictStrs[g.R.Intn(len(dictStrs))])
	}
	b := make([]byte, n)
	k := g.R.Intn(3)
	for i := range b {
		switch k {
		case 0:
			b[i] = bnd[g.R.Intn(len(bnd))]
		case 1:
			b[i] = byte(g.R.Intn(256))
		case 2:
			b[i] = byte('a' + g.R.Intn(2))
		}
	}
	return g.add(string(b))
}

func (g *Gen) add(s string) string {
	g.Pool = append(g.Pool, s)
	return s
}

// Register adds a useful string to the pool (for example an encoding), so that later draws are near valid ones.
func Register(s string) string {
	Cur.Pool = append(Cur.Pool, s)
	return s
}

var errPool = []error{nil, errors.New("opaque error a"), errors.New("opaque error b")}

// Err draws an opaque error.
func (g *Gen) Err() error { return errPool[g.R.Intn(len(errPool))] }

// Map draws a small map.
func (g *Gen) Map() map[string]string {
	m := map[string]string{}
	for i := g.R.Intn(4); i > 0; i-- {
		m[g.Str()] = g.Str()
	}
	return m
}

var byteSlice = reflect.TypeOf([]byte(nil))

func (g *Gen) value(t reflect.Type, name string) reflect.Value {
	switch t.Kind() {
	case reflect.Bool:
		return reflect.ValueOf(g.Bool()).Convert(t)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return reflect.ValueOf(g.Int64()).Convert(t)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return reflect.ValueOf(uint64(g.Int64())).Convert(t)
	case reflect.Float64:
		fs := []float64{0, math.Copysign(0, -1), 1, -1, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, 0.5, 1e300}
		if g.R.Intn(2) == 0 {
			return reflect.ValueOf(fs[g.R.Intn(len(fs))])
		}
		return reflect.ValueOf(math.Float64frombits(g.R.Uint64()))
	case reflect.String:
		return reflect.ValueOf(g.Str()).Convert(t)
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			if g.R.Intn(15) == 0 {
				return reflect.Zero(t)
			}
			s := g.Str()
			b := make([]byte, len(s), len(s)+g.R.Intn(2)*g.R.Intn(40))
			copy(b, s)
			// fill spare capacity with junk
			full := b[:cap(b)]
			for i := len(s); i < len(full); i++ {
				full[i] = byte(g.R.Intn(256))
			}
			return reflect.ValueOf(b).Convert(t)
		}
		n := g.R.Intn(5)
		v := reflect.MakeSlice(t, 0, n)
		for i := 0; i < n; i++ {
			v = reflect.Append(v, g.value(t.Elem(), name))
		}
		if n == 0 && g.R.Intn(2) == 0 {
			return reflect.Zero(t)
		}
		return v
	case reflect.Array:
		v := reflect.New(t).Elem()
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(g.value(t.Elem(), name))
		}
		return v
	case reflect.Struct:
		if t == reflect.TypeOf(Map{}) {
			return reflect.ValueOf(Map{g.Map()})
		}
		v := reflect.New(t).Elem()
		for i := 0; i < t.NumField(); i++ {
			v.Field(i).Set(g.value(t.Field(i).Type, t.Field(i).Name))
		}
		return v
	case reflect.Map:
		if g.R.Intn(6) == 0 {
			return reflect.Zero(t)
		}
		v := reflect.MakeMap(t)
		for i := g.R.Intn(4); i > 0; i-- {
			v.SetMapIndex(g.value(t.Key(), name), g.value(t.Elem(), name))
		}
		return v
	case reflect.Ptr:
		v := reflect.New(t.Elem())
		v.Elem().Set(g.value(t.Elem(), name))
		return v
	case reflect.Interface:
		e := g.Err()
		if e == nil {
			return reflect.Zero(t)
		}
		return reflect.ValueOf(e)
	}
	panic("gvc: cannot generate " + t.String())
}

// shapes make drawn inputs more likely to satisfy what a harness requires.
var shapes map[string]interface{}

// Report is the outcome of a concrete run.
type Report struct {
	Harness string
	Cases   int
	Skipped int
	Failed  bool
	Label   string
	Input   string
	Seed    int64
	Detail  string
	Begin   bool `json:",omitempty"`
}

func show(v reflect.Value) string {
	switch x := v.Interface().(type) {
	case []byte:
		if x == nil {
			return "nil"
		}
		return fmt.Sprintf("%q", x)
	case string:
		return fmt.Sprintf("%q", x)
	case [][]byte:
		return fmt.Sprintf("%q", x)
	case float64:
		return fmt.Sprintf("%v(bits %#x)", x, math.Float64bits(x))
	}
	return fmt.Sprintf("%#v", v.Interface())
}

// RunOne executes one concrete case.
func RunOne(name string, fn interface{}, seed int64) (rep Report) {
	rep = Report{Harness: name, Seed: seed}
	r := rand.New(rand.NewSource(seed))
	Cur = &Gen{R: r, MaxLen: []int{3, 10, 18, 26}[r.Intn(4)], FaultRate: []int{0, 0, 5, 25}[r.Intn(4)], SmallInts: r.Intn(2) == 0}
	retained = nil
	fv := reflect.ValueOf(fn)
	var args, ptrs []reflect.Value
	var in []string
	for i := 0; i < fv.Type().NumIn(); i++ {
		p := reflect.New(fv.Type().In(i))
		p.Elem().Set(Cur.value(fv.Type().In(i), ""))
		ptrs = append(ptrs, p)
		args = append(args, p.Elem())
	}
	if sh := shapes[name]; sh != nil && Cur.R.Intn(4) != 0 {
		reflect.ValueOf(sh).Call(append([]reflect.Value{reflect.ValueOf(Cur.R)}, ptrs...))
	}
	for _, a := range args {
		in = append(in, show(a))
	}
	rep.Input = strings.Join(in, ", ")
	defer func() {
		if p := recover(); p != nil {
			switch e := p.(type) {
			case Skip:
				rep.Skipped = 1
			case Failure:
				rep.Failed = true
				rep.Label = e.Label
			default:
				rep.Failed = true
				rep.Label = fmt.Sprintf("no-panic: %v", p)
				st := string(debug.Stack())
				if len(st) > 3000 {
					st = st[:3000]
				}
				rep.Detail = st
			}
			if len(Cur.Log) > 0 {
				rep.Detail = strings.Join(Cur.Log, "\n") + "\n" + rep.Detail
			}
		}
	}()
	rep.Cases = 1
	fv.Call(args)
	CheckRetained()
	return
}

// Logf records a drawn value for the report.
func Logf(f string, a ...interface{}) { Cur.Log = append(Cur.Log, fmt.Sprintf(f, a...)) }

// Search runs cases until the deadline or a failure.
func Search(name string, fn interface{}, seed int64, cases int, budget time.Duration) Report {
	tot := Report{Harness: name}
	dl := time.Now().Add(budget)
	nargs := reflect.TypeOf(fn).NumIn()
	_ = nargs
	for i := 0; i < cases; i++ {
		s := seed*1000003 + int64(i)
		ch := make(chan Report, 1)
		go func() { ch <- RunOne(name, fn, s) }()
		var r Report
		select {
		case r = <-ch:
		case <-time.After(20 * time.Second):
			r = Report{Harness: name, Seed: s, Failed: true, Label: "termination: a call did not return within 20 s", Input: "seed " + fmt.Sprint(s)}
		}
		tot.Cases += r.Cases
		tot.Skipped += r.Skipped
		if r.Failed {
			r.Cases, r.Skipped = tot.Cases, tot.Skipped
			return r
		}
		if time.Now().After(dl) {
			break
		}
	}
	return tot
}

// Main is called by the generated test: it searches every listed harness and writes reports as JSON lines.
func Main(hs map[string]interface{}, order []string, sh map[string]interface{}) {
	shapes = sh
	seed := int64(1)
	fmt.Sscan(os.Getenv("GVC_SEED"), &seed)
	cases, ms := 2000, 2000
	fmt.Sscan(os.Getenv("GVC_CASES"), &cases)
	fmt.Sscan(os.Getenv("GVC_MS"), &ms)
	loadDict(os.Getenv("GVC_DICT"))
	f, err := os.OpenFile(os.Getenv("GVC_OUT"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	if one := os.Getenv("GVC_ONE"); one != "" {
		r := RunOne(one, hs[one], seed)
		b, _ := json.Marshal(r)
		f.Write(append(b, '\n'))
		return
	}
	only := map[string]bool{}
	for _, n := range strings.Split(os.Getenv("GVC_ONLY"), ",") {
		if n != "" {
			only[n] = true
		}
	}
	for _, n := range order {
		if len(only) > 0 && !only[n] {
			continue
		}
		b0, _ := json.Marshal(Report{Harness: n, Seed: seed, Begin: true})
		f.Write(append(b0, '\n'))
		r := Search(n, hs[n], seed, cases, time.Duration(ms)*time.Millisecond)
		b, _ := json.Marshal(r)
		f.Write(append(b, '\n'))
	}
}
