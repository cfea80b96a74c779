package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"go.mongodb.org/mongo-driver/bson"
	"gopkg.in/yaml.v2"

	"github.com/octarinesec/MAPL/verifsim/rt"
)

// allProps in the order they are listed.
var allProps = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C28"}

func propNo(p string) uint64 {
	for i, x := range allProps {
		if x == p {
			return uint64(i + 1)
		}
	}
	panic("unknown property " + p)
}

func seedOf(prop string, base uint64, i int) uint64 {
	return rt.Mix(rt.Mix(base, propNo(prop)), uint64(i))
}

// scenario is everything one seed stands for.
func scenario(prop string, seed uint64) *Scenario {
	g := &gen{Rng: newRng(seed), depth: 2, ret: 30, refs: 30}
	sc := &Scenario{Prop: prop, Seed: seed, RandSeed: g.u64(), Sched: g.sched()}
	sc.Host = Host{Log: "discard", Clock: 1600000000}
	if g.p(15) {
		sc.Host.Log = g.pick("stderr", "slow")
	}
	// swarm: every run stresses different features
	g.depth = g.in(1, 4)
	g.ret = []int{0, 30, 80}[g.n2(3)]
	g.refs = []int{0, 25, 60}[g.n2(3)]
	g.ifaceOk = g.p(30)
	g.odd = g.p(10)
	sc.Lists = []MLists{{Strings: map[string]string{}, Lists: map[string][]string{}}}
	switch prop {
	case "C01":
		genShared(g, sc, []string{"check", "check", "check", "check", "rcheck", "tcond", "checkone", "ends", "prep", "msgjson", "derive"}, 8)
	case "C02":
		sc.Host.Log = "discard"
		if g.p(60) {
			g.refs = 70
		}
		genChanging(g, sc, []string{"check", "check", "rcheck", "checkone", "tcond", "tcondf", "mongo", "bind", "bind", "setglobal", "cover", "ident", "strings", "validate", "condeq", "json", "bson", "load", "prepared", "jsonset", "ends", "print", "prep", "msgjson", "derive"}, 1, 2)
		g.share(sc, 70)
	case "C03":
		genFirst(g, sc)
	case "C04":
		genChanging(g, sc, []string{"check", "check", "rcheck", "rcheck", "checkone", "tcond", "mongo", "bind", "bind", "bind"}, 1, 1)
		g.fix(sc)
	case "C05":
		genChanging(g, sc, []string{"check", "check", "rcheck", "tcond", "mongo", "bind", "setglobal", "setglobal", "load", "checkone", "cover", "freshcheck"}, 1, 3)
		if g.p(25) {
			genFirstGlobal(g, sc)
		}
		g.fix(sc)
	case "C06":
		if g.p(20) {
			genChanging(g, sc, []string{"check", "check", "rcheck", "tcond", "cover", "mongo", "observe", "checkone", "freshcheck", "bind", "setglobal", "strings"}, 1, 2)
			g.fix(sc)
		} else {
			genShared(g, sc, []string{"check", "check", "rcheck", "tcond", "cover", "mongo", "observe", "ident", "validate", "strings", "json", "checkone", "ends", "freshcheck", "print", "prep", "msgjson"}, 60)
		}
		g.share(sc, 90)
	case "C07":
		genShared(g, sc, []string{"check", "rcheck", "tcond", "ident", "validate", "load", "cover", "mongo", "json", "strings", "loadtext", "loadtext", "loadjson", "loadbson", "loadlists", "ends", "prep", "msgjson"}, 30)
		genTexts(g, sc, "")
	case "C08":
		genFiles(g, sc)
	case "C09":
		genShared(g, sc, []string{"check", "loadtext", "loadtext", "loadtext", "loadtext", "loadjson", "loadjson", "loadbson", "loadlists", "loadmsgs", "loadmsg", "rcheck"}, 30)
		genTexts(g, sc, "use")
	case "C10":
		genShared(g, sc, []string{"check", "check", "rcheck", "tcond", "cover", "checkone", "ends"}, 50)
		genDamage(g, sc)
	case "C11":
		g.odd = g.p(50)
		genShared(g, sc, []string{"check", "rcheck", "mongo", "validate", "json", "json", "jsonset", "bson", "bson", "load"}, 20)
	case "C12":
		genShared(g, sc, []string{"check", "check", "rcheck", "tcond", "load", "loadcheck", "derive", "derive", "cover", "clock", "zone"}, 30)
		genHost(g, sc)
	case "C13":
		if g.p(30) {
			genChanging(g, sc, []string{"cover", "cover", "cover", "check", "rcheck", "bind", "setglobal", "checkone"}, 1, 2)
			g.fix(sc)
		} else {
			genShared(g, sc, []string{"cover", "cover", "cover", "check", "rcheck", "ends"}, 60)
		}
	case "C14":
		g.mongo = g.p(20)
		if g.p(15) {
			genChanging(g, sc, []string{"check", "check", "rcheck", "tcond", "cover", "mongo", "load", "bind", "setglobal"}, 1, 2)
			g.fix(sc)
		} else {
			genShared(g, sc, []string{"check", "check", "rcheck", "tcond", "cover", "mongo", "load", "freshcheck", "prep", "msgjson", "loadlists", "loadmsgs", "loadmsgs", "loadmsg"}, 60)
			genTexts(g, sc, "")
			g.retexts(sc)
		}
		for t := range sc.Tasks {
			for i := range sc.Tasks[t] {
				sc.Tasks[t][i].Vandal = g.p(40)
			}
		}
	case "C15":
		genChanging(g, sc, []string{"ident", "ident", "ident", "check", "rcheck", "mongo", "bind", "bind", "validate", "load", "json", "bson", "loadtext", "strings", "setglobal", "condeq"}, 1, 2)
	case "C16":
		genEverything(g, sc)
	case "C17":
		g.mongo = true
		genChanging(g, sc, []string{"mongo", "mongo", "mongo", "mongo", "check", "rcheck", "tcond", "bind", "bind", "ident", "validate", "setglobal"}, 1, 2)
		g.fix(sc)
	case "C18":
		genLoads(g, sc)
	case "C19":
		genChanging(g, sc, []string{"check", "rcheck", "rcheck", "checkone", "tcond", "mongo", "bind", "bind", "setglobal", "cover", "ident", "json"}, 1, 2)
		genCopies(g, sc)
		g.fix(sc)
	case "C28":
		genRepeated(g, sc)
	}
	g.ids(sc)
	sc.sync()
	if prop == "C15" {
		genPermuted(g, sc)
	}
	return clone(sc) // as a replay file would give it
}

func (g *gen) messages(sc *Scenario, lo, hi int) {
	for i := g.in(lo, hi); i > 0; i-- {
		sc.Msgs = append(sc.Msgs, g.msg())
	}
}

func (g *gen) ops(sc *Scenario, kinds []string, n int) []Op {
	out := []Op{}
	for ; n > 0; n-- {
		op := Op{K: kinds[g.n2(len(kinds))]}
		op.Set = g.n2(len(sc.Sets))
		op.Rule = g.n2(len(sc.Sets[op.Set].Rules))
		if len(sc.Msgs) > 0 {
			op.Msg = g.n2(len(sc.Msgs))
		}
		op.Own = g.p(60)
		switch op.K {
		case "bind":
			op.Lists = g.n2(len(sc.Lists))
			if g.p(15) {
				op.Arg = "reuse"
			}
		case "setglobal":
			op.Lists = g.n2(len(sc.Lists))
			op.Arg = g.pick("", "same", "loaded", "edited", "reuse")
			op.N = g.n2(len(sc.Lists))
		case "load":
			if s := &sc.Sets[op.Set]; s.Bind > 0 && g.p(50) {
				op.Lists = s.Bind
			}
		case "cover":
			op.N = g.in(1, len(sc.Msgs))
			if g.p(3) {
				op.N = 0
			}
		case "mongo":
			op.Arg = g.pick("raw", "raw", "")
		case "prep":
			op.Lists = g.n2(len(sc.Lists))
		case "condeq":
			op.N = g.n2(4)
		case "clock":
			op.N = []int{-100000, -1, 1, 3600, 86400 * 400, 1 << 40}[g.n2(6)]
		case "zone":
			op.N = g.zone(sc)
		}
		out = append(out, op)
	}
	return out
}

// share makes operations work on the callers' common message objects.
func (g *gen) share(sc *Scenario, pct int) {
	for t := range sc.Tasks {
		for i := range sc.Tasks[t] {
			sc.Tasks[t][i].Own = !g.p(pct)
		}
	}
}

// genShared: rule sets whose lists do not change, used by several tasks.
func genShared(g *gen, sc *Scenario, kinds []string, sharePct int) {
	sc.Lists = append(sc.Lists, g.lists(0, 0))
	if g.p(30) {
		sc.Lists = append(sc.Lists, g.lists(0, 0))
	}
	sc.Global = g.n2(len(sc.Lists))
	for i := g.in(1, 2); i > 0; i-- {
		s := SetSpec{Bind: -1, Rules: g.rules(1, 4)}
		if g.p(8) {
			s.Rules = g.rules(5, 10)
			if g.p(12) {
				g.depth = 1
				s.Rules = append(s.Rules, g.rules(12, 60)...)
				if g.p(60) {
					// names nobody else has
					for i := range s.Rules {
						if r := &s.Rules[i]; r.SType == "workload" && g.p(70) {
							r.Sender = fmt.Sprintf("w%d,%s", i, g.svc())
						}
					}
				}
			}
		}
		switch g.n2(3) {
		case 0:
			s.Bind = g.in(1, len(sc.Lists)-1)
		case 1:
			s.Warm = true
		}
		s.Prep = g.p(10)
		sc.Sets = append(sc.Sets, s)
	}
	// what texts ask of a message is unknown to the budget
	g.big = !in("loadtext", kinds...) && !in("loadjson", kinds...)
	g.messages(sc, 1, 4)
	if in("cover", kinds...) && g.p(1) && len(sc.Sets[0].Rules) < 12 {
		g.messages(sc, 12, 60)
	}
	nt := []int{1, 2, 2, 2, 3, 3, 4, 6}[g.n2(8)]
	if g.p(5) {
		nt = g.in(8, 14)
		if g.p(60) && !g.mongo {
			// everybody deep inside a call at the same time
			yes := &MCond{K: "leaf", Attr: "true", Method: "EQ", Value: "x"}
			for i := range sc.Sets {
				for k := range sc.Sets[i].Rules {
					r := &sc.Sets[i].Rules[k]
					for n := g.in(2, 4); n > 0 && r.Cond != nil; n-- {
						r.Cond = &MCond{K: g.pick("and", "and", "or"), Subs: []*MCond{yes, r.Cond}}
					}
				}
			}
			sc.Sched.Kind, sc.Sched.Mean = "geo", []int{3, 10, 30}[g.n2(3)]
		}
	}
	long := 0
	if g.big && g.n2(250) == 0 && len(sc.Sets[0].Rules) < 12 && len(sc.Msgs) < 12 {
		nt, long = g.in(1, 3), g.in(40, 150)
	}
	for t := 0; t < nt; t++ {
		sc.Tasks = append(sc.Tasks, g.ops(sc, kinds, g.in(1, 5)+long))
	}
	if g.p(50) {
		// the typical case: everybody does the same to the same rule
		op := g.ops(sc, kinds[:1], 1)[0]
		for t := range sc.Tasks {
			o := op
			if g.p(70) {
				o.Msg = g.n2(len(sc.Msgs))
			}
			sc.Tasks[t] = append([]Op{o}, sc.Tasks[t]...)
		}
	}
	g.share(sc, sharePct)
	if g.p(3) {
		// no rules at all
		sc.Sets = append(sc.Sets, SetSpec{Bind: -1})
		t := g.n2(len(sc.Tasks))
		op := Op{K: "check", Set: len(sc.Sets) - 1, Msg: g.n2(len(sc.Msgs)), Own: true}
		if in("cover", kinds...) && g.p(50) {
			op.K, op.N = "cover", 1
		}
		sc.Tasks[t] = append(sc.Tasks[t], op)
	}
}

// genFirst: rules nobody has used yet.
func genFirst(g *gen, sc *Scenario) {
	missing := []int{0, 0, 15, 40}[g.n2(4)]
	sc.Lists = append(sc.Lists, g.lists(missing, 0))
	sc.Global = g.n2(2)
	if g.p(75) {
		sc.Global = 1
	}
	if g.p(70) {
		g.refs = 60
	}
	g.depth = g.in(1, 3)
	sc.Sets = []SetSpec{{Bind: -1, Rules: g.rules(1, 3), Prep: g.p(10)}}
	if g.p(20) {
		sc.Sets = append(sc.Sets, SetSpec{Bind: -1, Rules: g.rules(1, 3)})
	}
	g.messages(sc, 1, 3)
	for t := g.in(2, 5); t > 0; t-- {
		sc.Tasks = append(sc.Tasks, g.ops(sc, []string{"rcheck", "rcheck", "checkone", "tcond", "tcondf", "mongo", "check", "cover", "freshcheck"}, g.in(1, 3)))
	}
	if g.p(70) {
		r := g.n2(len(sc.Sets[0].Rules))
		for t := range sc.Tasks {
			sc.Tasks[t][0].Set, sc.Tasks[t][0].Rule = 0, r
		}
	}
	g.share(sc, 20)
}

// genChanging: lists change while rules are used.
func genChanging(g *gen, sc *Scenario, kinds []string, loSets, hiSets int) {
	if g.p(80) {
		g.refs = 80
	}
	g.depth = g.in(1, 3)
	missing := []int{0, 0, 10, 30}[g.n2(4)]
	sc.Lists = append(sc.Lists, g.lists(0, 0))
	for i := g.in(1, 3); i > 0; i-- {
		bad := 0
		if g.p(25) {
			bad = 60
		}
		sc.Lists = append(sc.Lists, g.lists(missing, bad))
	}
	sc.Global = g.n2(2)
	for i := g.in(loSets, hiSets); i > 0; i-- {
		s := SetSpec{Bind: -1, Rules: g.rules(1, 2)}
		if g.p(12) {
			s.Rules = g.rules(3, 6)
		}
		if g.p(60) {
			g.versioned(&s.Rules[0])
		}
		switch g.n2(4) {
		case 0, 1:
			s.Bind = 1
		case 2:
			s.Warm = true
		}
		s.Prep = g.p(10)
		sc.Sets = append(sc.Sets, s)
	}
	g.messages(sc, 1, 3)
	nt := []int{1, 2, 2, 2, 3, 3, 4}[g.n2(7)]
	total := g.in(3, 10)
	for t := 0; t < nt; t++ {
		n := total / nt
		if n < 1 {
			n = 1
		}
		sc.Tasks = append(sc.Tasks, g.ops(sc, kinds, n))
	}
	for t := range sc.Tasks {
		for i := range sc.Tasks[t] {
			op := &sc.Tasks[t][i]
			if _, ok := sc.Lists[op.Lists].resolved(); op.K == "bind" && !ok {
				op.Lists = 1
			}
		}
	}
	g.share(sc, 15)
}

// genFirstGlobal: the global lists are replaced while several callers use a
// rule for the first time; all of them use it again.
func genFirstGlobal(g *gen, sc *Scenario) {
	s := &sc.Sets[0]
	s.Bind, s.Warm, s.Prep = -1, false, false
	g.versioned(&s.Rules[0])
	use := func() Op {
		return Op{K: g.pick("rcheck", "rcheck", "tcond", "mongo"), Arg: "raw", Msg: g.n2(len(sc.Msgs)), Own: true}
	}
	for len(sc.Tasks) < 3 {
		sc.Tasks = append(sc.Tasks, nil)
	}
	for t := range sc.Tasks {
		if len(sc.Tasks[t]) > 1 {
			sc.Tasks[t] = sc.Tasks[t][:1]
		}
		ops := []Op{use(), use()}
		if t == 0 {
			ops = []Op{g.ops(sc, []string{"setglobal"}, 1)[0], use()}
		}
		sc.Tasks[t] = append(ops, sc.Tasks[t]...)
	}
}

// versioned makes a rule that depends on its lists in several places.
func (g *gen) versioned(r *MRule) {
	r.SType, r.RType, r.Op, r.Proto, r.ResType, r.ResName = "workload", "workload", "*", "*", "*", "*"
	r.Sender, r.Receiver = g.pick("#svcs", "#svcs", "#svc1", "*"), g.pick("*", "#svcs", "#svc1")
	leaf := func() *MCond {
		c := &MCond{K: "leaf"}
		c.Attr = g.pick("jsonpath:$.spec.name", "jsonpath:$.kind", "domain", "requestUseragent", "$sender.namespace", "jsonpath:$.labels.app")
		if g.mongo {
			c.Attr = g.pick("jsonpath:$.spec.name", "jsonpath:$.labels.app")
		}
		c.Method = g.pick("IN", "IN", "RE", "NIN", "EQ", "NEQ")
		c.Value = "#words"
		if c.Method[len(c.Method)-1] == 'Q' {
			c.Value = "#one"
		}
		return c
	}
	c := &MCond{K: g.pick("or", "and", "or")}
	n := g.in(1, 3)
	if g.p(8) {
		n = g.in(4, 9)
	}
	for i := n; i > 0; i-- {
		c.Subs = append(c.Subs, leaf())
	}
	if g.p(50) {
		c = &MCond{K: "or", Subs: []*MCond{c, {K: "leaf", Attr: "true", Method: "EQ", Value: "x"}}}
		if g.mongo {
			c.Subs[1].Attr, c.Subs[1].Method = "jsonpath:$.kind", "EX"
		}
	}
	r.Cond = c
}

// fix keeps what the history checker has no prediction for out of the way.
func (g *gen) fix(sc *Scenario) {
	n := 0
	for t := range sc.Tasks {
		for range sc.Tasks[t] {
			n++
		}
	}
	if n > 14 {
		for t := range sc.Tasks {
			if len(sc.Tasks[t]) > 4 {
				sc.Tasks[t] = sc.Tasks[t][:4]
			}
		}
	}
}

func genTexts(g *gen, sc *Scenario, arg string) {
	for t := range sc.Tasks {
		for i := range sc.Tasks[t] {
			op := &sc.Tasks[t][i]
			var text, other string
			switch op.K {
			case "loadtext":
				text, other = rulesYaml(g.rules(1, 3)), rulesYaml(g.rules(1, 2))
				if g.p(35) {
					text = g.structural(text)
				}
				op.Lists = g.n2(2)
				op.Bound = op.Lists > 0 && g.p(50)
				if g.p(20) {
					// written by somebody who does not know the format
					text = g.wildRules(text)
				}
				if op.Bound && g.p(30) {
					text = strings.Replace(text, g.pick("\"#words\"", "\"#svcs\"", "\"#one\""), "\"#nosuch\"", 1)
				}
			case "loadjson", "loadbson":
				// what another program saved
				text = rulesYaml(g.rules(1, 2))
				other = text
				if g.p(25) {
					text = g.structural(text)
				}
				if g.p(25) {
					text = g.wildRules(text)
				}
				op.Lists = g.n2(2)
				doc := yamlDoc(text)
				if doc == nil {
					doc = yamlDoc(other)
				}
				wrap := g.p(50)
				each(doc, func(m map[string]interface{}) {
					if c, ok := m["conditions"]; ok && wrap {
						m["conditions"] = map[string]interface{}{"conditionsTree": c}
					}
				})
				var any interface{} = doc
				if (sc.Prop == "C09" && g.p(60)) || g.p(25) {
					n := g.n2(countNodes(doc)-1) + 1
					any = damageDoc(doc, &n, oddKinds[g.n2(len(oddKinds))])
				}
				if op.K == "loadbson" {
					b, _ := bson.Marshal(sortedDoc(firstRule(any)))
					if (sc.Prop == "C09" && g.p(20)) && len(b) > 0 {
						b = b[:g.n2(len(b))]
					}
					op.N, op.Arg = len(sc.Texts), arg
					sc.Texts = append(sc.Texts, Bytes(b))
					continue
				}
				b, err := json.MarshalIndent(any, "", " ")
				if err != nil {
					b, _ = json.MarshalIndent(yamlDoc(other), "", " ")
				}
				text = string(b)
			case "loadlists":
				a, b := g.lists(0, 20), g.lists(0, 20)
				if sc.Prop == "C18" && g.p(30) {
					delete(a.Strings, "one")
					if g.p(30) {
						a.Strings = nil
					}
				}
				text, other = a.yaml(), b.yaml()
			case "loadmsgs":
				ms := append([]MMsg{}, sc.Msgs...)
				if g.p(10) {
					for n := g.in(3, 9); n > 0; n-- {
						ms = append(ms, g.msg())
					}
				}
				text, other = msgsYaml(ms), msgsYaml([]MMsg{g.msg()})
			case "loadmsg":
				m := g.msg()
				text, other = strings.Replace(strings.Replace(m.yaml(), "\n    ", "\n", -1), "  - ", "", 1), "x: 1\n"
			default:
				continue
			}
			if op.K == "loadjson" && g.p(60) {
				// damaged enough
			} else if (sc.Prop == "C09" && g.p(85)) || g.p(50) {
				text = g.damage(text, other)
			}
			op.N = len(sc.Texts)
			op.Arg = arg
			sc.Texts = append(sc.Texts, Bytes(text))
		}
	}
}

// yamlDoc is a text as plain maps and lists, nil if it is no such thing.
func yamlDoc(text string) map[string]interface{} {
	var v interface{}
	if yaml.Unmarshal([]byte(text), &v) != nil {
		return nil
	}
	var plain func(v interface{}) interface{}
	plain = func(v interface{}) interface{} {
		switch x := v.(type) {
		case map[interface{}]interface{}:
			m := map[string]interface{}{}
			for k, e := range x {
				m[fmt.Sprint(k)] = plain(e)
			}
			return m
		case []interface{}:
			for i := range x {
				x[i] = plain(x[i])
			}
		}
		return v
	}
	m, _ := plain(v).(map[string]interface{})
	return m
}

// each rule of a document.
func each(doc map[string]interface{}, f func(m map[string]interface{})) {
	rs, _ := doc["rules"].([]interface{})
	for _, r := range rs {
		if m, ok := r.(map[string]interface{}); ok {
			f(m)
		}
	}
}

func firstRule(v interface{}) interface{} {
	if m, ok := v.(map[string]interface{}); ok {
		if rs, ok := m["rules"].([]interface{}); ok && len(rs) > 0 {
			return rs[0]
		}
	}
	return v
}

// sortedDoc has the same bytes every time it is saved.
func sortedDoc(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		d := bson.D{}
		for _, k := range docKeys(x) {
			d = append(d, bson.E{Key: k, Value: sortedDoc(x[k])})
		}
		return d
	case []interface{}:
		a := bson.A{}
		for _, e := range x {
			a = append(a, sortedDoc(e))
		}
		return a
	case map[interface{}]interface{}, map[string]string:
		return "map"
	}
	return v
}

var oddTokens = []string{"null", "~", "[]", "{}", "123", "-1", "1.5", "[a, b]", "{a: b}", "\"\"", "true", "\"\\0\"", "!!binary aGk=", "2018-07-29", "1e999", ".inf", ".nan", "0x1F", "*a", "&a b", "\"#\"", "\"##words\"",
	"\"jsonpath:\"", "\"jsonpath:$\"", "\"jsonpath:$[\"", "\"jsonpath:$.a[\"", "\"jsonpath:$.a[]\"", "\"jsonpath:$.a[x]\"", "\"jsonpath:$.a[].b\"", "\"jsonpath:$RELATIVE.a[].b\"", "\"jsonpath:$.a[*].b\"", "\"jsonpath:$.a.[0].b\"", "\"jsonpath:$.a['b'].c\"", "\"jsonpath:$.[].[]\"", "\"jsonpath:$.a..b\"", "\"jsonpath:$..a\"", "\"jsonpath:$.a[0\"", "\"jsonpath:$.]a[\"", "\"jsonpath:$RELATIVE\"", "\"jsonpath:$RELATIVE*\"", "\"jsonpath:$KEY.\"", "\"jsonpath:$VALUE[0]\"", "\"jsonpath:.x\"", "\"jsonpath:$.a['\"", "\"jsonpath:$.a[?(@.b>1)]\"", "\"jsonpath:$.a[-1]\"", "\"jsonpath:$.a[1:2]\"",
	"\"senderLabel[\"", "\"senderLabel[x\"", "\"receiverLabel]x[\"", "\"receiverLabel[\"", "\"$sender.\"", "\"$receiver.x\"", "\"[\"", "\"((\"", "\"*(\"", "\"a{1\"", "\"\\\\\"", "\"a,,b\"", "\",\"", "\"10.0.0.0/99\"", "\"::1\"",
	"EQ", "RE", "IN", "NIN", "EX", "GT", "eq", "XX", "\"subnet\"", "\"hostname\"", "\"tcp\"", "[[a]]", "[{a: [1]}]", "|\n        x\n"}

var oddKeys = []string{"1", "null", "true", "AND", "OR", "NOT", "ANY", "ALL", "and", "condition", "attribute", "method", "value", "parentJsonpathAttribute", "returnValueJsonpath", "conditions", "rules", "[a]", "2.5", "\"\"", "valueInt", "conditionsTree", "<<"}

// structural rearranges mappings without making the text ill-formed.
func (g *gen) structural(text string) string {
	lines := strings.Split(text, "\n")
	for k := g.in(1, 2); k > 0; k-- {
		i := g.n2(len(lines))
		for j := 0; j < len(lines); j++ {
			l := lines[(i+j)%len(lines)]
			at := strings.Index(l, "parentJsonpathAttribute")
			if at < 0 {
				at = strings.Index(l, "attribute:")
			}
			if at < 0 {
				continue
			}
			ind := strings.Replace(l[:at], "-", " ", -1)
			leaf := "{attribute: \"jsonpath:$." + g.word() + "\", method: EQ, value: " + g.word() + "}"
			add := g.pick("OR: ["+leaf+"]", "AND: ["+leaf+"]", "condition: "+leaf, "NOT: "+leaf, "value: "+g.word(), "Value: "+g.word(), "Method: NEQ", "Attribute: domain", "returnValueJsonpath: {a: \"jsonpath:$.b\"}", "ReturnValueJsonpath: {a: \"jsonpath:$.c\"}", "condition: "+leaf)
			n := (i + j) % len(lines)
			lines = append(lines[:n+1], append([]string{ind + add}, lines[n+1:]...)...)
			break
		}
	}
	return strings.Join(lines, "\n")
}

// wildRules replaces the conditions of the rules by arbitrary nodes.
func (g *gen) wildRules(text string) string {
	out := []string{}
	skip := false
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, "    conditions:") {
			skip = true
			out = append(out, "    "+g.pick("conditions", "conditions", "conditions", "conditionsTree")+": "+g.wild(g.in(0, 4)))
			continue
		}
		if skip && strings.HasPrefix(l, "      ") {
			continue
		}
		skip = false
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

// wild is an arbitrary node made of the words of the format, in flow style.
func (g *gen) wild(depth int) string {
	if depth <= 0 || g.p(15) {
		if g.p(70) {
			return "{attribute: " + g.pick("\"jsonpath:$.spec.name\"", "\"jsonpath:$RELATIVE.name\"", "domain", "\"senderLabel[app]\"", "payloadSize", oddTokens[g.n2(len(oddTokens)-1)]) +
				", method: " + g.pick("EQ", "RE", "IN", "EX", "GT", "XX", "nin") + ", value: " + g.pick("a", "1", "\"#words\"", "\"(\"", "null", "[a]", "\"a,b\"", "\"\"") + "}"
		}
		return oddTokens[g.n2(len(oddTokens)-1)]
	}
	list := func() string {
		parts := []string{}
		for k := g.in(0, 3); k > 0; k-- {
			parts = append(parts, g.wild(depth-1))
		}
		return "[" + strings.Join(parts, ", ") + "]"
	}
	parts := []string{}
	for k := []int{1, 1, 1, 1, 2, 0}[g.n2(6)]; k > 0; k-- {
		switch g.n2(8) {
		case 0, 1, 2:
			parts = append(parts, g.pick("AND", "OR", "NOT", "AND", "OR", "and", "Or")+": "+list())
		case 3:
			parts = append(parts, g.pick("NOT", "NOT", "AND", "OR", "condition")+": "+g.wild(depth-1))
		case 4, 5:
			parts = append(parts, g.pick("ANY", "ALL")+": {parentJsonpathAttribute: "+g.pick("\"jsonpath:$.containers[:]\"", "\"$.containers[:]\"", "\"jsonpath:$.labels\"", "\"jsonpath:$RELATIVE.ports[:]\"", "\"\"", "null", "[a]", "\"jsonpath:$.containers[:],\"")+
				", "+g.pick("condition: ", "condition: ", "OR: ", "AND: ", "NOT: ", "x: ")+g.pick(g.wild(depth-1), list())+g.pick("", "", ", returnValueJsonpath: {a: \"jsonpath:$RELATIVE.name\"}", ", returnValueJsonpath: [a]", ", returnValueJsonpath: {a: [1]}")+"}")
		case 6:
			parts = append(parts, g.pick("ANY", "ALL")+": "+g.pick(list(), g.wild(depth-1)))
		case 7:
			parts = append(parts, oddKeys[g.n2(len(oddKeys))]+": "+g.pick(list(), g.wild(depth-1)))
		}
	}
	return "{" + strings.Join(parts, ", ") + "}"
}

func (g *gen) damage(text, other string) string {
	for k := g.in(1, 3); k > 0 && len(text) > 4; k-- {
		lines := strings.Split(text, "\n")
		i := g.n2(len(lines))
		switch g.n2(16) {
		case 0:
			text = text[:g.n2(len(text))]
		case 1:
			b := []byte(text)
			for n := g.in(1, 3); n > 0; n-- {
				b[g.n2(len(b))] ^= 1 << uint(g.n2(8))
			}
			text = string(b)
		case 2:
			text = strings.Join(append(lines[:i:i], lines[i+1:]...), "\n")
		case 3:
			text = strings.Join(append(lines[:i+1:i+1], lines[i:]...), "\n")
		case 4:
			j := g.n2(len(lines))
			lines[i], lines[j] = lines[j], lines[i]
			text = strings.Join(lines, "\n")
		case 5, 6, 7:
			if p := strings.Index(lines[i], ": "); p >= 0 {
				lines[i] = lines[i][:p+2] + oddTokens[g.n2(len(oddTokens))]
			} else if p := strings.Index(lines[i], "- "); p >= 0 {
				lines[i] = lines[i][:p+2] + oddTokens[g.n2(len(oddTokens))]
			} else {
				lines[i] += " " + oddTokens[g.n2(len(oddTokens))]
			}
			text = strings.Join(lines, "\n")
		case 8:
			if p := strings.IndexByte(lines[i], ':'); p >= 0 {
				s := strings.LastIndexAny(lines[i][:p], " -") + 1
				lines[i] = lines[i][:s] + oddKeys[g.n2(len(oddKeys))] + lines[i][p:]
			}
			text = strings.Join(lines, "\n")
		case 9:
			n := g.n2(len(text))
			if n < len(other) {
				text = text[:n] + other[n:]
			}
		case 10:
			a := g.n2(len(text))
			b := a + g.in(1, 40)
			if b > len(text) {
				b = len(text)
			}
			text = text[:a] + strings.Repeat(g.pick("\x00", " ", "x", "\xff"), b-a) + text[b:]
		case 11:
			// drop a block
			j := i + g.in(1, 4)
			if j > len(lines) {
				j = len(lines)
			}
			text = strings.Join(append(lines[:i:i], lines[j:]...), "\n")
		case 12:
			lines[i] = g.pick("  ", "    ", "\t") + lines[i]
			text = strings.Join(lines, "\n")
		case 13, 14, 15:
			// characters lost from or strayed into a value
			a := strings.Index(lines[i], "\"")
			b := strings.LastIndex(lines[i], "\"")
			if a < 0 || b <= a+1 {
				continue
			}
			v := lines[i][a+1 : b]
			n := g.n2(len(v))
			if p := strings.IndexAny(v, "[](){}'.,*#$:/"); p >= 0 && g.p(60) {
				n = p
			}
			switch g.n2(3) {
			case 0:
				e := n + g.in(1, 3)
				if e > len(v) {
					e = len(v)
				}
				v = v[:n] + v[e:]
			case 1:
				v = v[:n] + g.pick("[", "]", "[]", "[].", "[:]", ".", "..", "'", "#", "$", "*", "(", ")", "|", ",", "\\\\", "?", "+", "{", "}", ":", " ") + v[n:]
			case 2:
				// everything between brackets
				p, q := strings.IndexAny(v, "[("), strings.LastIndexAny(v, "])")
				if p >= 0 && q > p {
					v = v[:p+1] + v[q:]
				}
			}
			lines[i] = lines[i][:a+1] + v + lines[i][b:]
			text = strings.Join(lines, "\n")
		}
	}
	return text
}

func genDamage(g *gen, sc *Scenario) {
	for i := range sc.Msgs {
		m := &sc.Msgs[i]
		if len(sc.Msgs) > 1 && g.p(35) {
			continue // stays healthy
		}
		switch g.n2(10) {
		case 0, 1, 2, 3:
			m.Rep = "i"
			if m.Doc == nil {
				m.Doc = g.doc()
			}
			for k := g.in(1, 2); k > 0; k-- {
				sc.Damage = append(sc.Damage, Dmg{Msg: i, N: g.n2(countNodes(m.Doc)), Kind: oddKinds[g.n2(len(oddKinds))]})
			}
		case 4, 5, 6, 7:
			if m.Doc == nil {
				m.Doc = g.doc()
			}
			m.Raw = Bytes(g.damageJSON(docText(m.Doc)))
			m.Rep = "r"
		case 8:
			m.Rep = g.pick("nilraw", "nilif", "")
		case 9:
			m.NoTime = true
			m.EncVer = nil
			m.SrcIP, m.DstIP = g.pick("", "x"), g.pick("", "999.1")
			m.SrcLab, m.DstLab = nil, nil
			sc.Damage = append(sc.Damage, Dmg{Msg: i, N: 1 << 20, Kind: "nil"}) // no prediction
		}
	}
	if rules, _ := json.Marshal(sc.Sets); strings.Contains(string(rules), "$..") {
		// looking everywhere in a deep payload takes the square of its size
		for i := range sc.Msgs {
			if m := &sc.Msgs[i]; len(m.Raw) > 3000 {
				m.Raw = m.Raw[:3000]
			}
		}
	}
}

var oddJSON = []string{"null", "[]", "{}", "\"\"", "\"", "[", "]", "{", "}", "[null]", "[[],[]]", "[1,2]", "-", "1e999", "-0", "01", "tru", "nul", "\"\\u12\"", "\"\\", "{\"a\"", "{\"a\":", ":", ",", "\"a\" \"b\"", "[{}]", "{\"a\":{}}", "\x00", "123456789012345678901234567890", "\"[x]\"", "\"{\"", "\"]\"", "[\"]\"]"}

func (g *gen) damageJSON(text string) string {
	for k := g.in(1, 3); k > 0 && len(text) > 0; k-- {
		n := g.n2(len(text))
		switch g.n2(8) {
		case 0:
			text = text[:n]
		case 1:
			b := []byte(text)
			b[n] ^= 1 << uint(g.n2(8))
			text = string(b)
		case 2:
			text = text[:n] + text[n+1:]
		case 3:
			text = text[:n] + oddJSON[g.n2(len(oddJSON))] + text[n:]
		case 4, 5:
			// replace one value
			at := -1
			for i := n; i < len(text); i++ {
				if text[i] == ':' {
					at = i + 1
					break
				}
			}
			if at < 0 {
				continue
			}
			end, depth := at, 0
			for end < len(text) {
				c := text[end]
				if c == '{' || c == '[' {
					depth++
				}
				if c == '}' || c == ']' {
					depth--
				}
				if depth < 0 || depth == 0 && c == ',' {
					break
				}
				end++
			}
			text = text[:at] + oddJSON[g.n2(len(oddJSON))] + text[end:]
		case 6:
			text = text[n:]
		case 7:
			text = oddJSON[g.n2(len(oddJSON))]
			if g.p(20) {
				// deep
				d := g.in(10, 400)
				if g.p(10) {
					d = g.in(9000, 12000)
				}
				p := g.pick("[", "{\"containers\":", "{\"a\":[")
				text = strings.Repeat(p, d) + "1"
				if g.p(50) {
					text += strings.Repeat(map[string]string{"[": "]", "{\"containers\":": "}", "{\"a\":[": "]}"}[p], d)
				}
			}
		}
	}
	return text
}

func genFiles(g *gen, sc *Scenario) {
	sc.Lists = append(sc.Lists, g.lists(0, 0), g.lists(0, 30))
	sc.Sets = []SetSpec{{Bind: -1, Rules: g.rules(1, 6)}, {Bind: -1, Rules: g.rules(1, 2)}}
	g.messages(sc, 1, 4)
	if g.p(3) {
		// large files, with long lines or with many
		sc.Sets[0].Rules[0].Desc = strings.Repeat("long ", g.in(500, 20000))
		if g.p(50) {
			sc.Msgs[0].Agent = strings.Repeat("long", g.in(500, 20000))
		} else {
			for n := g.in(20, 150); n > 0; n-- {
				sc.Msgs = append(sc.Msgs, g.msg())
			}
		}
		sc.Lists[1].Lists["more"] = append(sc.Lists[1].Lists["more"], strings.Repeat("l", g.in(4000, 70000)))
	}
	if g.p(8) {
		for n := g.in(2, 9); n > 0; n-- {
			sc.Msgs = append(sc.Msgs, g.msg())
		}
	}
	nf := g.in(1, 3)
	for i := 0; i < nf; i++ {
		f := FileSpec{Kind: g.pick("rules", "rules", "lists", "msgs", "bin", "bin")}
		switch f.Kind {
		case "rules":
			f.Ref = g.n2(2)
			f.Text = rulesYaml(g.rules(1, 4))
		case "lists":
			f.Ref = 1
			l := g.lists(0, 0)
			f.Text = l.yaml()
		case "msgs":
			f.Text = msgsYaml([]MMsg{g.msg(), g.msg()})
		case "bin":
			f.Ref = []int{0, 1, 8, 30, 200}[g.n2(5)]
			if g.p(10) {
				f.Ref = []int{4095, 4096, 4097, 9000, 70000}[g.n2(5)]
			}
			f.Text = strings.Repeat("other", 100)
		}
		if f.Kind != "bin" && g.p(15) {
			// what is written there is faulty already
			text := (&World{sc: sc}).fileText(f)
			switch {
			case f.Kind == "msgs" && g.p(40):
				// one of the times
				parts := strings.Split(text, "T1")
				k := g.n2(len(parts))
				if k > 0 {
					text = strings.Join(parts[:k], "T1") + g.pick("T9", "X1", " 1") + strings.Join(parts[k:], "T1")
				}
			case f.Kind == "rules" && g.p(40):
				text = strings.Replace(text, g.pick("\"#words\"", "\"#svcs\"", "\"#one\""), "\"#nosuch\"", 1)
			default:
				text = g.damage(text, f.Text)
			}
			f.Body = Bytes(text)
		}
		sc.Files = append(sc.Files, f)
		sizes := len((&World{sc: sc}).fileText(f))
		off := func() int {
			if g.p(25) {
				return []int{0, 1, sizes - 1, sizes, 512, 4096}[g.n2(6)]
			}
			return g.n2(sizes + 1)
		}
		for k := []int{0, 1, 1, 1, 2, 3}[g.n2(6)]; k > 0; k-- {
			fa := Fault{File: i, N: 1}
			switch g.n2(14) {
			case 0:
				fa.Kind, fa.At, fa.N = "open:"+g.pick("ENOENT", "EACCES", "EMFILE", "ENFILE", "EIO", "ENOMEM", "ESTALE"), g.n2(2), g.in(1, 3)
				if g.p(40) {
					fa.N = 1 << 30 // it does not go away
				}
			case 1:
				fa.Kind, fa.At, fa.N = "open:EINTR", g.n2(2), g.in(1, 3)
			case 2, 3:
				fa.Kind, fa.At = "read:"+g.pick("EIO", "EIO", "EISDIR", "ESTALE", "EBADF"), off()
			case 4:
				fa.Kind, fa.At, fa.N = "read:EINTR", off(), g.in(1, 4)
			case 5, 6, 7:
				fa.Kind, fa.At, fa.N = "short", off()/2, []int{1, 2, 7, 100, 511}[g.n2(5)]+sizes/4000
			case 8, 9:
				fa.Kind, fa.At = "shrink", off()
			case 10:
				fa.Kind, fa.At = "replace", off()
			case 11:
				fa.Kind, fa.N = "grow", g.in(1, 200)
			case 12:
				fa.Kind = "stat:EIO"
			case 13:
				fa.Kind = "close:EIO"
			}
			sc.Faults = append(sc.Faults, fa)
		}
	}
	for t := g.in(1, 3); t > 0; t-- {
		ops := []Op{}
		for k := g.in(1, 3); k > 0; k-- {
			op := Op{K: "ffile", N: g.n2(nf)}
			if sc.Files[op.N].Kind == "rules" && g.p(40) {
				op.Lists = 1
			}
			ops = append(ops, op)
			if g.p(15) {
				ops = append(ops, Op{K: "swap", N: op.N})
			}
		}
		sc.Tasks = append(sc.Tasks, ops)
	}
}

// genLoads: many loads of similar texts, good and bad ones, next to other calls.
func genLoads(g *gen, sc *Scenario) {
	kinds := []string{"loadtext", "loadtext", "loadtext", "loadtext", "loadjson", "loadbson", "loadlists", "loadmsgs", "loadmsg", "load", "check", "rcheck", "validate", "mongo", "cover"}
	if g.p(30) {
		genChanging(g, sc, append(kinds, "bind", "setglobal", "loadtext", "loadtext"), 1, 2)
	} else {
		genShared(g, sc, kinds, 30)
	}
	genTexts(g, sc, "answers")
	g.retexts(sc)
}

// retexts makes some of the loads load the same text as others, or a similar one.
func (g *gen) retexts(sc *Scenario) {
	last := map[string]int{}
	for t := range sc.Tasks {
		for i := range sc.Tasks[t] {
			op := &sc.Tasks[t][i]
			if !in(op.K, "loadtext", "loadjson", "loadbson", "loadlists", "loadmsgs", "loadmsg") {
				continue
			}
			if n, ok := last[op.K]; ok {
				switch g.n2(5) {
				case 0:
					op.N = n
				case 1, 2:
					if op.K == "loadbson" {
						break
					}
					sc.Texts[op.N] = Bytes(g.similar(string(sc.Texts[n])))
				}
			}
			last[op.K] = op.N
		}
	}
}

// similar differs from the text in one place only, often not in its length.
func (g *gen) similar(text string) string {
	lines := strings.Split(text, "\n")
	at := g.n2(len(lines))
	for k := 0; k < len(lines); k++ {
		l := &lines[(at+k)%len(lines)]
		c := strings.Index(*l, ": ")
		if c < 0 || len(*l) < c+4 {
			continue
		}
		head, v := (*l)[:c+2], (*l)[c+2:]
		p := 0
		for p < len(v) && (v[p] == '"' || v[p] == '#' || v[p] == '\'') {
			p++
		}
		e := p
		for e < len(v) && (v[e] >= 'a' && v[e] <= 'z' || v[e] >= 'A' && v[e] <= 'Z' || v[e] >= '0' && v[e] <= '9') {
			e++
		}
		if e == p {
			continue
		}
		w := v[p:e]
		switch {
		case g.p(50):
			b := []byte(w)
			b[len(b)-1] ^= 1
			if c := b[len(b)-1] | 0x20; c < 'a' || c > 'z' {
				b[len(b)-1] = 'x'
			}
			w = string(b)
		case g.p(50):
			w = g.word()
		default:
			w = g.pick("allow", "block", "alert", "EQ", "NEQ", "workload", "a")
		}
		*l = head + v[:p] + w + v[e:]
		break
	}
	return strings.Join(lines, "\n")
}

// genCopies: some of the rule sets are copies of others.
func genCopies(g *gen, sc *Scenario) {
	n := len(sc.Sets)
	for i := g.in(1, 2); i > 0; i-- {
		c := g.n2(n)
		sc.Sets = append(sc.Sets, sc.Sets[c])
		sc.Sets[len(sc.Sets)-1].Copy = c + 1
	}
	for t := range sc.Tasks {
		for i := range sc.Tasks[t] {
			op := &sc.Tasks[t][i]
			if g.p(60) {
				op.Set = g.n2(len(sc.Sets))
				op.Rule = g.n2(len(sc.Sets[op.Set].Rules))
			}
		}
	}
}

// genRepeated: calls that are made again and again.
func genRepeated(g *gen, sc *Scenario) {
	switch g.n2(5) {
	case 0:
		genFiles(g, sc)
		for i := range sc.Files {
			if len(sc.Files[i].Body) > 5000 {
				sc.Files[i].Body = sc.Files[i].Body[:5000]
			}
		}
	case 1:
		genChanging(g, sc, []string{"check", "rcheck", "tcond", "mongo", "bind", "bind", "setglobal", "load", "cover", "validate", "ident", "json", "bson", "strings", "prepared", "condeq", "freshcheck", "prep", "msgjson", "derive"}, 1, 2)
	case 2:
		genShared(g, sc, []string{"check", "rcheck", "loadtext", "loadtext", "loadjson", "loadbson", "loadlists", "loadmsgs", "loadmsg"}, 50)
		genTexts(g, sc, g.pick("use", "", ""))
	case 3:
		genShared(g, sc, []string{"check", "check", "rcheck", "tcond", "cover", "mongo", "ends", "checkone", "tcondf"}, 60)
		genDamage(g, sc)
	case 4:
		genShared(g, sc, []string{"check", "check", "rcheck", "tcond", "cover", "mongo", "ident", "validate", "load", "bson", "json", "jsonset", "ends", "loadcheck", "freshcheck", "condeq", "strings", "prep", "msgjson", "derive"}, 30)
	}
	for t := range sc.Tasks {
		if len(sc.Tasks[t]) > 3 {
			sc.Tasks[t] = sc.Tasks[t][:3]
		}
	}
	sc.Rounds = []int{6, 10, 20}[g.n2(3)]
}

// zone of the host: any, or the one some message's time is given in.
func (g *gen) zone(sc *Scenario) int {
	if len(sc.Msgs) > 0 && g.p(40) {
		if n, ok := map[string]int{"+02:00": 4, "-05:30": -11, "-08:00": -16, "+01:00": 2}[sc.Msgs[g.n2(len(sc.Msgs))].TZ]; ok {
			return n
		}
	}
	return g.in(-24, 28)
}

func genHost(g *gen, sc *Scenario) {
	sc.Host.Log = g.pick("discard", "stderr", "eio", "enospc", "ebadf", "short", "slow", "errwriter")
	if g.p(50) {
		sc.Host.LogPct = g.in(10, 90)
	}
	for i := range sc.Msgs {
		if g.p(25) {
			sc.Msgs[i].TZ = g.pick("+02:00", "-05:30", "+00:00", "-08:00", "+01:00")
		}
	}
	sc.Host.Zone = g.zone(sc)
	sc.Host.Clock = []int64{0, 1, 1600000000, 1 << 33, -5000000, 253402300799}[g.n2(6)]
	if g.p(50) {
		// time of day matters
		for i := range sc.Sets {
			for k := range sc.Sets[i].Rules {
				if g.p(60) {
					r := &sc.Sets[i].Rules[k]
					t := &MCond{K: "leaf", Attr: "utcHoursFromMidnight", Method: g.pick("GT", "LT", "GE", "LE"), Value: g.pick("6", "12", "12.5", "18")}
					if r.Cond == nil {
						r.Cond = t
					} else {
						r.Cond = &MCond{K: "or", Subs: []*MCond{t, r.Cond}}
					}
				}
			}
		}
	}
}

func genPermuted(g *gen, sc *Scenario) {
	for t := range sc.Tasks {
		for i := range sc.Tasks[t] {
			op := &sc.Tasks[t][i]
			if op.K != "loadtext" {
				continue
			}
			rules := []MRule{}
			for _, r := range sc.Sets[op.Set].Rules {
				r.Cond = g.permute(r.Cond)
				rules = append(rules, r)
			}
			op.N = len(sc.Texts)
			sc.Texts = append(sc.Texts, Bytes(rulesYaml(rules)))
		}
	}
}

func (g *gen) permute(c *MCond) *MCond {
	if c == nil {
		return nil
	}
	d := *c
	d.Subs = nil
	for _, s := range c.Subs {
		d.Subs = append(d.Subs, g.permute(s))
	}
	if c.K == "and" || c.K == "or" {
		for i := len(d.Subs) - 1; i > 0; i-- {
			j := g.n2(i + 1)
			d.Subs[i], d.Subs[j] = d.Subs[j], d.Subs[i]
		}
	}
	return &d
}

func genEverything(g *gen, sc *Scenario) {
	switch g.n2(6) {
	case 0, 5:
		genFiles(g, sc)
		if g.p(30) {
			// nothing gets better by waiting
			sc.Faults = append(sc.Faults, Fault{File: g.n2(len(sc.Files)), N: 1 << 30,
				Kind: "open:" + g.pick("ENOENT", "EACCES", "EMFILE", "EMFILE", "ENFILE", "EIO", "ENOMEM", "ESTALE")})
		}
	case 1:
		genChanging(g, sc, []string{"check", "rcheck", "tcond", "mongo", "bind", "bind", "setglobal", "load", "cover", "validate", "ident", "json", "bson", "strings", "prepared", "print"}, 1, 2)
		g.share(sc, 50)
	case 2:
		genShared(g, sc, []string{"check", "rcheck", "cover", "loadtext", "loadtext", "loadjson", "loadbson", "loadlists", "loadmsgs", "loadmsg"}, 50)
		genTexts(g, sc, "use")
	case 3:
		genShared(g, sc, []string{"check", "check", "rcheck", "tcond", "cover", "mongo"}, 60)
		genDamage(g, sc)
	case 4:
		// large inputs
		g.depth = 5
		genShared(g, sc, []string{"check", "check", "check", "rcheck", "cover", "mongo", "ident", "validate", "load", "bson"}, 50)
		sc.Sets[0].Rules = append(sc.Sets[0].Rules, g.rules(2, 6)...)
		if g.p(40) {
			// a deep tree
			r := &sc.Sets[0].Rules[0]
			for k := g.in(10, 40); k > 0; k-- {
				c := &MCond{K: g.pick("not", "and", "or"), Subs: []*MCond{r.Cond}}
				if r.Cond == nil {
					c.Subs[0] = g.leaf("")
				}
				if c.K != "not" && g.p(30) {
					c.Subs = append(c.Subs, g.leaf(""))
				}
				r.Cond = c
			}
		}
		for i := range sc.Msgs {
			if d, ok := sc.Msgs[i].Doc.(map[string]interface{}); ok {
				cs := []interface{}{}
				for k := g.in(5, 20); k > 0; k-- {
					cs = append(cs, g.container())
				}
				d["containers"] = cs
			}
		}
	}
	if g.p(30) {
		sc.Host.Log = g.pick("stderr", "eio", "slow", "short")
	}
}

func docText(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}
