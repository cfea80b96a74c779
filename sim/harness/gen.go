package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/octarinesec/MAPL/verifsim/rt"
)

// ---- scenarios ----

type Op struct {
	K      string `json:"k"`
	Set    int    `json:"set,omitempty"`
	Rule   int    `json:"rule,omitempty"`
	Msg    int    `json:"msg,omitempty"`
	Lists  int    `json:"lists,omitempty"`
	Own    bool   `json:"own,omitempty"`    // private copy of the message
	Vandal bool   `json:"vandal,omitempty"` // modify the result after receiving it
	Arg    string `json:"arg,omitempty"`
	N      int    `json:"n,omitempty"`
	Bound  bool   `json:"bound,omitempty"` // load with lists
}

type SetSpec struct {
	Rules []MRule `json:"rules,omitempty"`
	Bind  int     `json:"bind"` // lists version bound at load, -1 none
	Warm  bool    `json:"warm,omitempty"`
	Prep  bool    `json:"prep,omitempty"` // PrepareRules was called on it
	Text  string  `json:"text,omitempty"` // replaces the rendered rules (damaged texts)
	Copy  int     `json:"copy,omitempty"` // the rules are copied from set Copy-1
}

type Fault struct {
	Kind string `json:"kind"`
	File int    `json:"file"`
	At   int    `json:"at"` // nth operation of its kind on the file, or byte offset
	N    int    `json:"n,omitempty"`
}

type FileSpec struct {
	Kind string `json:"kind"` // rules lists msgs bin
	Ref  int    `json:"ref"`  // set, lists or first message
	Text string `json:"text,omitempty"`
	Body Bytes  `json:"body,omitempty"` // what it contains instead
}

type SchedSpec struct {
	Kind  string `json:"kind"` // serial geo hot pct
	Mean  int    `json:"mean,omitempty"`
	Depth int    `json:"depth,omitempty"`
	Seed  uint64 `json:"seed"`
}

type Host struct {
	Log    string `json:"log,omitempty"` // discard, stderr, eio, enospc, short, slow, errwriter
	Zone   int    `json:"zone,omitempty"`
	Clock  int64  `json:"clock,omitempty"`
	Jump   int64  `json:"jump,omitempty"`
	LogPct int    `json:"logpct,omitempty"`
}

type Scenario struct {
	Prop     string     `json:"prop"`
	Seed     uint64     `json:"seed"`
	RandSeed uint64     `json:"rand_seed"`
	Sched    SchedSpec  `json:"sched"`
	Sets     []SetSpec  `json:"sets"`
	Lists    []MLists   `json:"lists"` // Lists[0] is always the empty one
	Global   int        `json:"global"`
	Msgs     []MMsg     `json:"msgs"`
	Tasks    [][]Op     `json:"tasks"`
	Files    []FileSpec `json:"files,omitempty"`
	Faults   []Fault    `json:"faults,omitempty"`
	Host     Host       `json:"host"`
	Texts    []Bytes    `json:"texts,omitempty"`
	Damage   []Dmg      `json:"damage,omitempty"`
	Trace    []rt.Slice `json:"trace,omitempty"`
	UseTrace bool       `json:"use_trace,omitempty"`
	Rounds   int        `json:"rounds,omitempty"` // everything is done that often
}

// Dmg replaces the Nth node of a message's payload by something unexpected.
type Dmg struct {
	Msg  int    `json:"msg"`
	N    int    `json:"n"`
	Kind string `json:"kind"`
}

// ---- generator ----

type gen struct {
	*Rng
	refs    int // percent of values that are references
	depth   int
	ret     int // percent of nodes with return values
	ifaceOk bool
	odd     bool // values with characters that need escaping
	mongo   bool // prefer translatable conditions
	last    *MLists
	strict  [2]int // how last was made
	big     bool   // now and then a payload with many parts
	n       int
}

var words = []string{"a", "b", "ab", "abc", "prod", "dev", "x1", "nginx", "redis", "tcp", "udp"}
var svcs = []string{"svc.a", "svc.b", "svcxa", "web", "web1", "web2", "db"}

func (g *gen) word() string { return words[g.n2(len(words))] }
func (g *gen) svc() string  { return svcs[g.n2(len(svcs))] }
func (g *gen) n2(k int) int { return g.Rng.n(k) }

func (g *gen) maybe(m map[string]interface{}, pct int, k string, v interface{}) {
	if g.p(pct) {
		m[k] = v
	}
}

func (g *gen) scalar(kind string) interface{} {
	switch kind {
	case "num":
		return []interface{}{0.0, 1.0, 2.0, 3.0, 10.0, 0.5, 80.0, 443.0}[g.n2(8)]
	case "qty":
		return g.pick("500m", "1", "64Mi", "2K", "100m", "50%", "1Ki")
	case "bool":
		return g.p(50)
	}
	return g.word()
}

func (g *gen) port() map[string]interface{} {
	m := map[string]interface{}{}
	g.maybe(m, 90, "p", g.scalar("num"))
	g.maybe(m, 80, "proto", g.pick("tcp", "udp"))
	return m
}

func (g *gen) kvs(max int) map[string]interface{} {
	m := map[string]interface{}{}
	keys := []string{"app", "tier", "env", "zone", "a", "k1"}
	for i := g.in(0, max); i > 0; i-- {
		m[keys[g.n2(len(keys))]] = g.word()
	}
	return m
}

func (g *gen) kvo(max int) map[string]interface{} {
	m := map[string]interface{}{}
	keys := []string{"o1", "o2", "o3", "app"}
	for i := g.in(0, max); i > 0; i-- {
		v := map[string]interface{}{}
		g.maybe(v, 85, "x", g.scalar("num"))
		g.maybe(v, 85, "y", g.word())
		m[keys[g.n2(len(keys))]] = v
	}
	return m
}

func (g *gen) container() map[string]interface{} {
	m := map[string]interface{}{}
	g.maybe(m, 90, "name", g.word())
	g.maybe(m, 80, "image", g.pick("nginx", "redis", "abc"))
	g.maybe(m, 70, "priv", g.scalar("bool"))
	g.maybe(m, 70, "cpu", g.scalar("qty"))
	g.maybe(m, 60, "env", g.kvs(3))
	if g.p(70) {
		ps := []interface{}{}
		for i := g.in(0, 3); i > 0; i-- {
			ps = append(ps, g.port())
		}
		m["ports"] = ps
	}
	if len(m) == 0 {
		m["name"] = "a"
	}
	return m
}

func (g *gen) doc() map[string]interface{} {
	d := map[string]interface{}{}
	g.maybe(d, 92, "kind", g.pick("Pod", "Deployment", "Job", "Pod"))
	spec := map[string]interface{}{}
	g.maybe(spec, 85, "replicas", g.scalar("num"))
	g.maybe(spec, 85, "host", g.scalar("bool"))
	g.maybe(spec, 85, "name", g.word())
	g.maybe(spec, 70, "mem", g.scalar("qty"))
	g.maybe(d, 92, "spec", spec)
	for _, k := range []string{"containers", "inits"} {
		if g.p(85) {
			cs := []interface{}{}
			n := g.in(0, 4)
			if g.big && g.n2(150) == 0 {
				n = g.in(17, 70)
			}
			for i := n; i > 0; i-- {
				cs = append(cs, g.container())
			}
			d[k] = cs
		}
	}
	g.maybe(d, 85, "labels", g.kvs(5))
	g.maybe(d, 75, "annots", g.kvo(4))
	g.maybe(d, 60, "meta", map[string]interface{}{"a.b/c": g.word(), "name": g.word()})
	return d
}

func (g *gen) labels() map[string]string {
	if g.p(15) {
		return nil
	}
	m := map[string]string{}
	for i := g.in(0, 3); i > 0; i-- {
		m[g.pick("app", "tier", "k1")] = g.word()
	}
	if g.p(2) {
		for i := g.in(8, 25); i > 0; i-- {
			m[fmt.Sprintf("l%d", g.n2(60))] = g.word()
		}
	}
	return m
}

func (g *gen) msg() MMsg {
	g.n++
	m := MMsg{ID: fmt.Sprintf("m%d", g.n)}
	m.Src, m.Dst = g.svc(), g.svc()
	m.Host = g.pick("host.a", "host.b", "api.x")
	m.SrcIP, m.DstIP = g.pick("10.0.0.1", "10.0.0.2", "192.168.1.7", "10.0.1.9"), g.pick("10.0.0.1", "10.0.0.2", "192.168.1.7")
	m.Port = g.pick("80", "443", "8080")
	m.Proto = g.pick("http", "HTTP", "http", "tcp", "kafka")
	m.Path = g.pick("/x", "/x/y", "/abc", "/")
	m.Method = g.pick("GET", "POST", "PUT", "DELETE", "HEAD", "read")
	m.Size = int64(g.in(0, 4) * 50)
	m.Agent, m.Domain, m.EncType = g.word(), g.word(), g.pick("tls", "mtls", "")
	m.Time = fmt.Sprintf("%02d:%02d:%02d", g.n2(24), g.n2(60), g.n2(60))
	m.SrcNs, m.DstNs, m.SrcCl, m.DstCl = g.word(), g.word(), g.word(), g.word()
	if g.p(70) {
		v := []float64{1.0, 1.1, 1.2, 1.3}[g.n2(4)]
		m.EncVer = &v
	}
	m.SrcLab, m.DstLab = g.labels(), g.labels()
	if g.p(10) {
		m.TZ = g.pick("+02:00", "-05:30", "+00:00", "-08:00", "+01:00")
	}
	m.Rep = "i"
	if g.p(20) {
		m.Style = g.in(1, 3)
	}
	if g.p(6) {
		m.Rep = "ib"
		m.Doc = g.doc()
		return m
	}
	if g.p(45) && !g.ifaceOk {
		m.Rep = "b"
		m.Spare = g.in(0, 2) * 64
	}
	if g.p(4) && !g.ifaceOk {
		m.Rep = ""
		return m
	}
	m.Doc = g.doc()
	return m
}

func (g *gen) ref(m string, fallback string) string {
	if g.p(g.refs) {
		if m == "EQ" || m == "NEQ" {
			return g.pick("#one", "#one", "#two")
		}
		return g.pick("#words", "#words", "#words", "#more", "#one", "#Words")
	}
	return fallback
}

func (g *gen) wlist() string {
	s := g.word()
	for i := g.in(0, 2); i > 0; i-- {
		s += "," + g.word()
	}
	if g.p(20) {
		s = "[" + s + "]"
	}
	return s
}

// value fills in method and value for a leaf whose values are of some kind.
func (g *gen) value(c *MCond, kind string) {
	switch kind {
	case "num", "qty":
		c.Method = g.pick("EQ", "NEQ", "GT", "GE", "LT", "LE", "EX", "NEX", "ge", "lt", "eq")
		if kind == "qty" {
			c.Value = g.pick("100m", "0.5", "1Ki", "64Mi", "1", "2000", "50%")
		} else {
			c.Value = g.pick("0", "1", "2", "3", "0.5", "80", "100m")
		}
	case "bool":
		c.Method, c.Value = g.pick("EQ", "NEQ", "EX", "IN"), g.pick("true", "false")
	case "odd":
		c.Method = g.pick("EQ", "NEQ", "RE")
		c.Value = g.pick("a\tb", "line1\nline2", "q\"uote", "back\\\\slash", "<&>", "üñ€", "a'b", "x y", "\u0001", "%v%d", " lead", "tail ")
		return
	default:
		c.Method = g.pick("EQ", "NEQ", "RE", "NRE", "IN", "NIN", "EX", "NEX", "IS", "EQ", "IN")
		switch c.Method {
		case "EQ", "NEQ":
			c.Value = g.ref(c.Method, g.word())
		case "RE", "NRE":
			c.Value = g.ref(c.Method, g.pick("a.*", "^ab", "b$", "x|prod", "[a-c]+", "ng.nx"))
		case "IN", "NIN", "IS":
			c.Value = g.ref(c.Method, g.wlist())
		}
	}
	if c.Method == "EX" || c.Method == "NEX" {
		c.Value = g.pick("", "x")
	}
	if c.Method == "IN" && kind == "bool" {
		c.Value = "true,x"
	}
}

func (g *gen) leaf(ctx string) *MCond {
	c := &MCond{K: "leaf"}
	type pk struct{ p, k string }
	var pool []pk
	abs := []pk{{"$.kind", "str"}, {"$.spec.replicas", "num"}, {"$.spec.host", "bool"}, {"$.spec.name", "str"}, {"$.spec.mem", "qty"},
		{"$.labels.app", "str"}, {"$.labels['tier']", "str"}, {"$.meta['a.b/c']", "str"}, {"$.containers[0].name", "str"}, {"$.containers[1].cpu", "qty"}, {"$.none.x", "str"}}
	rel := map[string][]pk{
		"c":   {{"$RELATIVE.name", "str"}, {"$RELATIVE.image", "str"}, {"$RELATIVE.priv", "bool"}, {"$RELATIVE.cpu", "qty"}, {"$RELATIVE.env.app", "str"}, {"$RELATIVE.ports[0].p", "num"}},
		"p":   {{"$RELATIVE.p", "num"}, {"$RELATIVE.proto", "str"}, {"$RELATIVE.p", "num"}},
		"kvs": {{"$KEY", "key"}, {"$VALUE", "str"}, {"$KEY", "key"}, {"$VALUE", "str"}, {"$RELATIVE.app", "str"}},
		"kvo": {{"$KEY", "key"}, {"$VALUE.x", "num"}, {"$VALUE.y", "str"}, {"$VALUE.z", "str"}},
	}
	if ctx == "" {
		if !g.mongo && g.p(40) {
			return g.attrLeaf()
		}
		pool = abs
		if g.p(2) {
			pool = rel["c"]
		}
	} else {
		pool = rel[ctx]
		if g.p(12) {
			pool = abs
		} else if g.p(12) && (ctx == "c" || ctx == "p") {
			pool = []pk{{"$KEY", "str"}, {"$VALUE", "str"}} // of elements with any number of keys
		}
	}
	x := pool[g.n2(len(pool))]
	c.Attr = "jsonpath:" + x.p
	g.value(c, x.k)
	if x.k == "key" {
		c.Method = g.pick("EQ", "NEQ", "RE", "IN")
		c.Value = g.pick("app", "tier", "o1", "o2", "k1")
	}
	if g.odd && g.p(40) {
		g.value(c, "odd")
	}
	if ctx == "" && pool[0].p == abs[0].p && g.p(g.ret) {
		c.Ret = map[string]string{"r": g.pick("$.kind", "$.spec.replicas", "$.spec", "$.labels.app")}
		if g.p(30) {
			c.Ret["s"] = g.pick("$.spec.name", "$.spec.host", "$.kind.x")
		}
		g.oddNames(c)
	}
	return c
}

// oddNames gives the returned values names that need care.
func (g *gen) oddNames(c *MCond) {
	if !g.odd || !g.p(50) {
		return
	}
	for _, k := range sortedKeys(c.Ret) {
		if g.p(60) {
			v := c.Ret[k]
			delete(c.Ret, k)
			c.Ret[g.pick("a.b", "x y", "$r", "ü", "q\"q", "a\\b", "<k>", "1", "true", "k:1", "#words", "null")] = v
		}
	}
}

func (g *gen) attrLeaf() *MCond {
	c := &MCond{K: "leaf"}
	switch g.n2(11) {
	case 0:
		c.Attr, c.Method, c.Value = "payloadSize", g.pick("GT", "LE", "EQ", "NEQ", "ge", "lt"), g.pick("0", "50", "100", "150")
	case 1:
		c.Attr, c.Method, c.Value = "utcHoursFromMidnight", g.pick("GT", "LT", "GE", "LE"), g.pick("6", "12", "12.5", "18")
	case 2:
		c.Attr, c.Method, c.Value = "encryptionVersion", g.pick("GT", "LE", "EQ", "GE", "LT"), g.pick("1.1", "1.2", "1")
	case 3:
		c.Attr = "requestUseragent"
		g.value(c, "str")
	case 4:
		c.Attr = "encryptionType"
		g.value(c, "str")
		if c.Method == "EQ" {
			c.Value = g.pick("tls", "mtls", ".*tls")
		}
	case 5:
		c.Attr = "domain"
		g.value(c, "str")
	case 6:
		c.Attr = g.pick("$sender.namespace", "$sender.cluster", "$receiver.namespace", "$receiver.cluster")
		g.value(c, "str")
		if strings.HasPrefix(c.Attr, "$s") && g.p(40) {
			c.Method, c.Value = g.pick("EQ", "NEQ"), g.pick("$receiver.namespace", "$receiver.cluster")
		}
	case 7, 8:
		c.Attr = g.pick("senderLabel[app]", "receiverLabel[app]", "senderLabel[tier]", "receiverLabel[k1]")
		g.value(c, "str")
		if g.p(8) {
			c.Method, c.Value = g.pick("EQ", "NEQ"), g.pick("*", "*a", "?a", "+")
		} else if c.Attr[0] == 's' && g.p(40) {
			c.Method, c.Value = g.pick("EQ", "NEQ"), g.pick("receiverLabel[app]", "receiverLabel[tier]")
		}
	default:
		c.Attr, c.Method, c.Value = g.pick("true", "true", "false"), "EQ", "x"
	}
	if g.odd && g.p(20) && (c.Attr == "domain" || c.Attr == "requestUseragent") {
		g.value(c, "odd")
	}
	return c
}

func (g *gen) cond(depth int, ctx string) *MCond {
	if depth <= 0 || g.p(22) {
		return g.leaf(ctx)
	}
	switch g.n2(9) {
	case 0, 1, 2, 3:
		c := &MCond{K: g.pick("and", "or", "or")}
		lo := 1
		if g.p(4) {
			lo = 0
		}
		hi := 3
		if g.p(6) {
			hi = 8
			if g.p(30) {
				c.K = "and"
			}
			if g.p(6) {
				lo, hi = 17, 40
				depth = 1
			}
		}
		for i := g.in(lo, hi); i > 0; i-- {
			c.Subs = append(c.Subs, g.cond(depth-1, ctx))
		}
		return c
	case 4:
		return &MCond{K: "not", Subs: []*MCond{g.cond(depth-1, ctx)}}
	}
	c := &MCond{K: g.pick("any", "any", "all")}
	type pc struct{ p, ctx string }
	var pool []pc
	switch ctx {
	case "":
		pool = []pc{{"$.containers[:]", "c"}, {"$.containers[*]", "c"}, {"$.inits[:]", "c"}, {"$.containers[:],$.inits[:]", "c"}, {"$.labels", "kvs"}, {"$.labels", "kvs"}, {"$.annots", "kvo"}, {"$.nowhere[:]", "c"}, {"$.containers[:].ports[:]", "p"},
			{"$.containers", "c"}, {"$.containers,$.inits", "c"}, {"$.inits[:],$.containers", "c"}, {"$.containers[0].ports[:]", "p"}}
		if g.ifaceOk {
			pool = append(pool, pc{"$.labels,$.meta", "kvs"})
		}
		if g.p(2) {
			pool = []pc{{"$..ports[:]", "p"}, {"$..env", "kvs"}, {"$..containers[:]", "c"}, {"$..name", "c"}}
		}
	case "c":
		pool = []pc{{"$RELATIVE.ports[:]", "p"}, {"$RELATIVE.ports[:]", "p"}, {"$RELATIVE.env", "kvs"}, {"$.labels", "kvs"}}
		if g.ifaceOk {
			pool = append(pool, pc{"$RELATIVE*", "kvs"})
		}
	default:
		return g.leaf(ctx)
	}
	x := pool[g.n2(len(pool))]
	c.Parent = x.p
	c.Subs = []*MCond{g.cond(depth-1, x.ctx)}
	if g.p(g.ret) {
		switch x.ctx {
		case "c":
			c.Ret = map[string]string{"nm": g.pick("$RELATIVE.name", "$RELATIVE.image", "$RELATIVE.cpu")}
			if g.p(30) {
				c.Ret["i"] = "$RELATIVE.image"
			}
			if g.ifaceOk && g.p(30) {
				c.Ret["w"] = "$RELATIVE*"
			}
		case "p":
			c.Ret = map[string]string{"p": "$RELATIVE.p"}
		default:
			c.Ret = map[string]string{"k": g.pick("$RELATIVE.app", "$RELATIVE.tier", "$RELATIVE.o1")}
		}
		g.oddNames(c)
	}
	return c
}

func (g *gen) rule() MRule {
	g.n++
	r := MRule{ID: fmt.Sprintf("r%d", g.n), SType: "workload", RType: "workload", Sender: "*", Receiver: "*", Proto: "*", ResType: "*", ResName: "*", Op: "*"}
	name := func() string {
		if g.p(g.refs) {
			return g.pick("#svcs", "#svc1")
		}
		return g.pick("*", "svc.*", "web?", "web,db", g.svc(), g.svc()+", "+g.svc())
	}
	if g.p(45) {
		r.Sender = name()
	}
	if g.p(45) {
		r.Receiver = name()
	}
	switch g.n2(12) {
	case 0:
		r.SType, r.Sender = "subnet", g.pick("10.0.0.0/24", "10.0.0.1", "*", "10.0.0.1,192.168.0.0/16")
	case 1:
		r.RType, r.Receiver = "subnet", g.pick("10.0.0.0/24", "10.0.0.2", "192.168.1.7")
	case 2:
		r.RType, r.Receiver = "hostname", g.pick("host.*", "api.x", "host.a,host.b")
	case 3:
		r.SType = "*"
	case 4:
		r.RType = "*"
	case 5:
		if g.p(30) {
			r.SType = "zone"
		}
	}
	switch g.n2(8) {
	case 0, 1, 2:
		r.Proto, r.ResType, r.ResName = g.pick("http", "HTTP"), g.pick("path", "*"), g.pick("/x*", "/*", "/abc,/x", "*")
	case 3:
		r.Proto, r.ResType, r.ResName = "tcp", "port", g.pick("80", "*", "80,443")
	}
	if g.p(40) {
		r.Op = g.pick("read", "write", "READ", "GET", "POST,PUT", "P*")
	}
	if g.odd && g.p(40) {
		// blanks around the names
		for _, s := range []*string{&r.Sender, &r.Receiver, &r.ResName, &r.Op, &r.Proto} {
			if g.p(40) {
				*s = g.pick(" ", "", "  ") + *s + g.pick(" ", "", "\t")
			}
		}
	}
	r.Decision = g.pick("allow", "alert", "block", "ALLOW", "Alert", "BLOCK")
	if g.p(4) {
		r.Decision = g.pick("", "deny", "none")
	}
	if g.p(60) {
		r.Desc = "desc " + r.ID
		if g.p(10) {
			r.Desc = g.pick(" Spaced "+r.ID+" ", "DESC: "+r.ID+"\n", "\t"+r.ID, "a  b "+r.ID)
		}
	}
	if g.p(88) {
		r.Cond = g.cond(g.depth, "")
	}
	return r
}

func (g *gen) rules(lo, hi int) []MRule {
	n := g.in(lo, hi)
	rs := make([]MRule, n)
	for i := range rs {
		rs[i] = g.rule()
	}
	return rs
}

// lists makes a version of predefined lists; missing keys make rules
// unpreparable, bad references make the set itself unacceptable.
func (g *gen) lists(missing, bad int) MLists {
	var l MLists
	if g.last != nil && missing >= g.strict[0] && bad >= g.strict[1] && g.p(15) {
		l = g.editedLists(*g.last)
	} else {
		l = g.newLists(missing, bad)
		g.strict = [2]int{missing, bad}
	}
	g.last = &l
	return l
}

// editedLists is the next version of a file: one entry is different.
func (g *gen) editedLists(o MLists) MLists {
	l := MLists{Strings: map[string]string{}, Lists: map[string][]string{}}
	var names []string
	for k, v := range o.Strings {
		l.Strings[k] = v
		names = append(names, k)
	}
	for k, v := range o.Lists {
		l.Lists[k] = append([]string{}, v...)
		if len(v) > 0 {
			names = append(names, "#"+k)
		}
	}
	if len(names) == 0 {
		return l
	}
	sort.Strings(names)
	k := names[g.n2(len(names))]
	for _, n := range names {
		if len(l.Lists[strings.TrimPrefix(n, "#")]) > 10 && g.p(60) {
			k = n
		}
	}
	v := g.word()
	if strings.Contains(k, "svc") {
		v = g.svc()
	}
	if !strings.HasPrefix(k, "#") {
		l.Strings[k] = v
		return l
	}
	vs := l.Lists[k[1:]]
	switch g.n2(8) {
	case 0:
		l.Lists[k[1:]] = append(vs, v)
	case 1:
		l.Lists[k[1:]] = vs[:len(vs)-1]
	case 2:
		a, b := g.n2(len(vs)), g.n2(len(vs))
		vs[a], vs[b] = vs[b], vs[a]
	default:
		vs[g.n2(len(vs))] = v
	}
	return l
}

// longer adds entries no message has, in no order.
func (g *gen) longer(w []string) []string {
	for i := g.in(12, 40); i > 0; i-- {
		at := g.n2(len(w) + 1)
		w = append(w[:at], append([]string{fmt.Sprintf("%s%d", g.word(), g.n2(90)+10)}, w[at:]...)...)
	}
	return w
}

func (g *gen) newLists(missing, bad int) MLists {
	l := MLists{Strings: map[string]string{}, Lists: map[string][]string{}}
	str := func(k, v string) {
		if !g.p(missing) {
			l.Strings[k] = v
		}
	}
	lst := func(k string, v []string) {
		if !g.p(missing) {
			l.Lists[k] = v
		}
	}
	some := func(f func() string, lo, hi int) []string {
		out := []string{}
		for i := g.in(lo, hi); i > 0; i-- {
			out = append(out, f())
		}
		return out
	}
	str("one", g.word())
	str("two", g.word())
	str("svc1", g.svc())
	if g.p(4) {
		// looks like another reference
		str(g.pick("one", "two", "svc1"), g.pick("#one", "#two", "#words", "#", "##one"))
	}
	w := some(g.word, 1, 3)
	if g.p(40) {
		w = append(w, "#one")
		l.Strings["one"] = g.word()
	}
	if g.p(bad) {
		w = append(w, "#undefined")
	}
	if g.p(5) {
		w = g.longer(w)
	}
	lst("words", w)
	lst("more", some(g.word, 1, 3))
	lst("Words", some(g.word, 1, 2))
	w = some(func() string { return g.pick(g.svc(), g.svc(), "web*") }, 1, 3)
	if g.p(4) {
		w = g.longer(w)
	}
	lst("svcs", w)
	if missing > 0 && g.p(15) {
		// only one kind of them
		if g.p(50) {
			l.Lists = map[string][]string{}
		} else {
			l.Strings = map[string]string{}
			for _, vs := range l.Lists {
				for i := range vs {
					vs[i] = strings.Replace(vs[i], "#one", "one", 1)
				}
			}
		}
	}
	return l
}

var plainIDs = []string{"", "0", "m", "m0", "m00", "10", "1", " m", "100", "M", "r", "R1"}

// bare gives some messages as a program that does not load them would make
// them: without what loading derives from their fields.
func (g *gen) bare(sc *Scenario) {
	switch sc.Prop {
	case "C01", "C02", "C03", "C04", "C05", "C06", "C10", "C13", "C14":
	default:
		return
	}
	if !g.p(12) {
		return
	}
	for _, t := range sc.Tasks {
		for _, op := range t {
			if in(op.K, "loadmsg", "loadmsgs", "loadcheck", "derive") {
				return
			}
		}
	}
	for i := range sc.Msgs {
		sc.Msgs[i].Bare = g.p(60)
	}
}

// ids changes the names of rules and messages: the ones of different sets may
// be the same, and they may look alike.
func (g *gen) ids(sc *Scenario) {
	defer g.twins(sc)
	g.bare(sc)
	if g.p(15) {
		at := g.n2(len(plainIDs))
		for i := range sc.Msgs {
			if i < len(plainIDs) {
				sc.Msgs[i].ID = plainIDs[(at+i)%len(plainIDs)]
			}
		}
	}
	if g.p(25) {
		at, plain := g.n2(len(plainIDs)), g.p(30)
		for s := range sc.Sets {
			rs := sc.Sets[s].Rules
			for k := range rs {
				switch {
				case plain && k < len(plainIDs):
					rs[k].ID = plainIDs[(at+k)%len(plainIDs)]
				default:
					rs[k].ID = fmt.Sprintf("rule-%d", k)
				}
				if s > 0 && g.p(50) && k < len(sc.Sets[0].Rules) {
					rs[k].Decision = sc.Sets[0].Rules[k].Decision
				}
			}
		}
	}
}

// twins gives several messages, or several rules, the same ID.
func (g *gen) twins(sc *Scenario) {
	if !g.p(10) {
		return
	}
	changing := false
	for _, t := range sc.Tasks {
		for _, op := range t {
			changing = changing || op.K == "bind" || op.K == "setglobal"
		}
	}
	switch sc.Prop {
	case "C01", "C06", "C12", "C13", "C14":
		if changing {
			return
		}
	case "C03", "C07", "C10":
	default:
		return
	}
	for i := range sc.Msgs {
		if i > 0 && g.p(60) {
			sc.Msgs[i].ID = sc.Msgs[g.n2(i)].ID
		}
	}
	if sc.Prop == "C13" || sc.Prop == "C01" {
		for s := range sc.Sets {
			rs := sc.Sets[s].Rules
			for k := range rs {
				if k > 0 && g.p(40) {
					rs[k].ID = rs[g.n2(k)].ID
				}
			}
		}
	}
}

func (g *gen) sched() SchedSpec {
	s := SchedSpec{Seed: g.u64()}
	switch g.n2(10) {
	case 0:
		s.Kind = "serial"
	case 1, 2, 3, 4:
		s.Kind, s.Mean = "geo", []int{1, 3, 10, 50, 200, 1000}[g.n2(6)]
	case 5, 6, 7:
		s.Kind, s.Mean = "hot", []int{1, 2, 4, 10, 30}[g.n2(5)]
	default:
		s.Kind, s.Depth = "pct", g.in(1, 6)
	}
	return s
}

// Bytes is text that need not be valid UTF-8 and survives JSON all the same.
type Bytes string

func (b Bytes) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(b)) {
		return json.Marshal(string(b))
	}
	return json.Marshal(map[string][]byte{"b64": []byte(b)})
}

func (b *Bytes) UnmarshalJSON(data []byte) error {
	var s string
	if json.Unmarshal(data, &s) == nil {
		*b = Bytes(s)
		return nil
	}
	var m map[string][]byte
	if err := json.Unmarshal(data, &m); err != nil {
		return err
	}
	*b = Bytes(m["b64"])
	return nil
}
