package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"net"
	"reflect"
	"runtime"
	"sort"
	"strings"

	M "github.com/octarinesec/MAPL/MAPL_engine"
	"github.com/octarinesec/MAPL/verifsim/rt"
	"go.mongodb.org/mongo-driver/bson"
)

// World holds the objects the tasks of one run share.
type World struct {
	sc     *Scenario
	sets   []*M.Rules
	vals   [][]M.Rule // C02: values of the rules, for calls that take them
	texts  []string
	msgs   []*M.MessageAttributes
	raws   [][]byte // full buffers behind byte payloads
	lists  []M.PredefinedStringsAndLists
	listOK []bool
	raw    []M.PredefinedStringsAndLists // the same lists as a program would write them
	noRefs []map[string][]string         // what loading added to the lists
	recs   [][]*Rec
	fs     *simFS
	host   *hostSim
	truth  *truth
	fresh  *World
	ids    [][]string // identities before the restart
}

// Rec is what one operation did.
type Rec struct {
	Task, Idx int
	Op        Op
	Inv, Ret  int
	Panic     string
	Exit      string
	Err       bool
	Canon     string   // canonical result at return
	PerRule   []string // canonical per-rule results of a check
	live      func() string
	vandal    func()
	loaded    *M.Rules
	text      string
	file      *handle // file loaders
	Note      string  // finding made by the task itself
}

func (r *Rec) note(s string) {
	if r.Note == "" {
		r.Note = s
	}
}

type exitPanic struct{ code int }

func deepDoc(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		m := make(map[string]interface{}, len(x))
		for _, k := range docKeys(x) {
			m[k] = deepDoc(x[k])
		}
		return m
	case []interface{}:
		a := make([]interface{}, len(x))
		for i := range x {
			a[i] = deepDoc(x[i])
		}
		return a
	}
	return v
}

func copyMap(m map[string]string) map[string]string {
	if m == nil {
		return nil
	}
	c := make(map[string]string, len(m))
	for k, v := range m {
		c[k] = v
	}
	return c
}

func docKeys(m map[string]interface{}) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// build makes a fresh engine message from its description.
func (w *World) build(i int) (*M.MessageAttributes, []byte) {
	m := &w.sc.Msgs[i]
	a := &M.MessageAttributes{
		MessageID: m.ID, SourceService: m.Src, DestinationService: m.Dst, RequestHost: m.Host,
		SourceIp: m.SrcIP, DestinationIp: m.DstIP, DestinationPort: m.Port, ContextProtocol: m.Proto,
		RequestPath: m.Path, RequestMethod: m.Method, RequestSize: m.Size, RequestUseragent: m.Agent,
		SourceNamespace: m.SrcNs, DestinationNamespace: m.DstNs, SourceCluster: m.SrcCl, DestinationCluster: m.DstCl,
		EncryptionType: m.EncType, Domain: m.Domain, SourceLabels: copyMap(m.SrcLab), DestinationLabels: copyMap(m.DstLab),
	}
	if m.EncVer != nil {
		v := *m.EncVer
		a.EncryptionVersion = &v
	}
	a.SourceNetIp, a.DestinationNetIp = net.ParseIP(m.SrcIP), net.ParseIP(m.DstIP)
	a.ContextType = ctxType(m.Proto)
	if m.Bare {
		a.SourceNetIp, a.DestinationNetIp, a.ContextType, a.SourceLabels, a.DestinationLabels = nil, nil, "", nil, nil
		a.SourceLabelsJson, a.DestinationLabelsJson = labelText(m.SrcLab), labelText(m.DstLab)
		a.RequestTime = m.time()
	} else if !m.NoTime {
		a.RequestTime = m.time()
		var h, mi, s int
		fmt.Sscanf(m.Time, "%d:%d:%d", &h, &mi, &s)
		ns := float64(((h*60+mi)*60 + s) * 1e9)
		a.RequestTimeSecondsFromMidnightUTC = ns / 1e9
		a.RequestTimeMinutesFromMidnightUTC = ns / 1e9 / 60
		a.RequestTimeHoursFromMidnightUTC = ns / 1e9 / 60 / 60
	}
	var buf []byte
	switch m.Rep {
	case "i", "ib":
		doc := deepDoc(m.Doc)
		for _, d := range w.sc.Damage {
			if d.Msg == i {
				n := d.N
				doc = damageDoc(doc, &n, d.Kind)
			}
		}
		a.RequestRawInterface = &doc
		if m.Rep == "ib" {
			buf = m.text()
			raw := buf[:len(buf):len(buf)]
			a.RequestJsonRaw = &raw
		}
	case "b", "r":
		text := []byte(m.Raw)
		if m.Rep == "b" {
			text = m.text()
		}
		buf = make([]byte, len(text)+m.Spare)
		copy(buf, text)
		for k := len(text); k < len(buf); k++ {
			buf[k] = 0xA5
		}
		raw := buf[:len(text)]
		a.RequestJsonRaw = &raw
	case "nilraw":
		var raw []byte
		a.RequestJsonRaw = &raw
	case "nilif":
		var doc interface{}
		a.RequestRawInterface = &doc
	}
	return a, buf
}

// text of the payload, written in one of several styles.
func (m *MMsg) text() []byte {
	b, _ := json.Marshal(m.Doc)
	switch m.Style {
	case 1:
		b, _ = json.MarshalIndent(m.Doc, "", "  ")
	case 2:
		b = []byte(" \n" + string(b) + "\n")
	case 3:
		b, _ = json.MarshalIndent(m.Doc, "", "\t")
		b = append(b, '\n')
	}
	return b
}

type oddStruct struct{ X int }

func oddValue(kind string) interface{} {
	switch kind {
	case "nil":
		return nil
	case "int":
		return 7
	case "int64":
		return int64(1) << 40
	case "strs":
		return []string{"a", "b"}
	case "mapss":
		return map[string]string{"app": "a"}
	case "mapii":
		return map[interface{}]interface{}{"app": "a", 1: 2}
	case "maps":
		return []map[string]interface{}{{"name": "a"}}
	case "bytes":
		return []byte("abc")
	case "struct":
		return oddStruct{1}
	case "ptr":
		return &oddStruct{1}
	case "nan":
		return math.NaN()
	case "inf":
		return math.Inf(1)
	case "str":
		return "text"
	case "quote":
		return "\""
	case "lquote":
		return "\"abc"
	case "brackets":
		return "[\"]"
	case "empty":
		return ""
	case "num":
		return 3.5
	case "big":
		return 1e300
	case "bool":
		return true
	case "arr":
		return []interface{}{}
	case "arrnil":
		return []interface{}{nil, 1.0, "a", []interface{}{1.0}, map[string]interface{}{}}
	case "arrarr":
		return []interface{}{[]interface{}{map[string]interface{}{"name": "a"}}, 1.0}
	case "map":
		return map[string]interface{}{}
	case "map2":
		return map[string]interface{}{"app": "a", "tier": nil, "x": []interface{}{}}
	}
	panic("unknown odd value " + kind)
}

var oddKinds = []string{"nil", "int", "int64", "strs", "mapss", "mapii", "maps", "bytes", "struct", "ptr", "nan", "inf", "str", "quote", "lquote", "brackets", "empty", "num", "big", "bool", "arr", "arrnil", "arrarr", "map", "map2"}

// damageDoc replaces the nth node, in a fixed traversal order.
func damageDoc(v interface{}, n *int, kind string) interface{} {
	if *n == 0 {
		*n = -1
		return oddValue(kind)
	}
	*n--
	switch x := v.(type) {
	case map[string]interface{}:
		for _, k := range docKeys(x) {
			if *n < 0 {
				break
			}
			x[k] = damageDoc(x[k], n, kind)
		}
	case []interface{}:
		for i := range x {
			if *n < 0 {
				break
			}
			x[i] = damageDoc(x[i], n, kind)
		}
	}
	return v
}

func countNodes(v interface{}) int {
	n := 1
	switch x := v.(type) {
	case map[string]interface{}:
		for _, e := range x {
			n += countNodes(e)
		}
	case []interface{}:
		for _, e := range x {
			n += countNodes(e)
		}
	}
	return n
}

func rawLists(l *MLists) M.PredefinedStringsAndLists {
	p := M.PredefinedStringsAndLists{PredefinedStrings: map[string]string{}, PredefinedLists: map[string][]string{}}
	for k, v := range l.Strings {
		p.PredefinedStrings[k] = v
	}
	for k, v := range l.Lists {
		p.PredefinedLists[k] = append([]string{}, v...)
	}
	return p
}

func copyLists(l M.PredefinedStringsAndLists) M.PredefinedStringsAndLists {
	p := rawLists(&MLists{Strings: l.PredefinedStrings, Lists: l.PredefinedLists})
	p.PredefinedListsWithoutRefs = rawLists(&MLists{Lists: l.PredefinedListsWithoutRefs}).PredefinedLists
	return p
}

// newWorld loads everything the tasks will share. It runs before the tasks,
// under the driver's own random stream.
func newWorld(sc *Scenario) (w *World, fail string) {
	w = &World{sc: sc}
	defer func() {
		if e := recover(); e != nil {
			fail = "panic while preparing the run: " + panicText(e)
		}
	}()
	M.GlobalPredefinedStringsAndLists = M.PredefinedStringsAndLists{}
	for i := range sc.Lists {
		l := &sc.Lists[i]
		_, ok := l.resolved()
		p, err := M.YamlReadStringListsFromString(l.yaml())
		if err != nil && ok {
			return w, fmt.Sprintf("lists %d: load error %v", i, err)
		}
		w.lists = append(w.lists, p)
		w.listOK = append(w.listOK, ok)
		w.raw = append(w.raw, rawLists(l))
		w.noRefs = append(w.noRefs, rawLists(&MLists{Lists: p.PredefinedListsWithoutRefs}).PredefinedLists)
	}
	if sc.Global > 0 {
		if err := M.SetGlobalPredefinedStringsAndLists(rawLists(&sc.Lists[sc.Global])); err != nil {
			return w, fmt.Sprintf("initial global lists: %v", err)
		}
	}
	for i := range sc.Sets {
		s := &sc.Sets[i]
		text := s.Text
		if text == "" {
			text = rulesYaml(s.Rules)
		}
		w.texts = append(w.texts, text)
		var rules M.Rules
		var err error
		if s.Copy > 0 {
			rules.Rules = append(rules.Rules, w.sets[s.Copy-1].Rules...)
		} else if s.Bind >= 0 {
			rules, err = M.YamlReadRulesFromStringWithPredefinedStrings(text, w.lists[s.Bind])
		} else {
			rules, err = M.YamlReadRulesFromString(text)
		}
		if err != nil || len(rules.Rules) != len(s.Rules) {
			return w, fmt.Sprintf("rule set %d: %d rules, error %v\n%s", i, len(rules.Rules), err, text)
		}
		if s.Prep && s.Copy == 0 {
			_ = M.PrepareRules(&rules)
		}
		w.sets = append(w.sets, &rules)
		w.vals = append(w.vals, append([]M.Rule{}, rules.Rules...))
		if s.Warm && s.Copy == 0 {
			m := &M.MessageAttributes{}
			for k := range rules.Rules {
				rules.Rules[k].Check(m)
			}
		}
	}
	for i := range sc.Msgs {
		m, buf := w.build(i)
		w.msgs = append(w.msgs, m)
		w.raws = append(w.raws, buf)
	}
	return w, ""
}

func panicText(e interface{}) string {
	text := fmt.Sprint(e)
	// first engine frame below the panic
	pcs := make([]uintptr, 64)
	n := runtime.Callers(2, pcs)
	frames := runtime.CallersFrames(pcs[:n])
	at, seen := "", false
	for {
		f, more := frames.Next()
		if strings.HasPrefix(f.Function, "runtime.gopanic") || strings.HasPrefix(f.Function, "runtime.panic") || strings.HasPrefix(f.Function, "runtime.sigpanic") {
			seen = true
		} else if seen && strings.Contains(f.Function, "MAPL_engine") {
			at = f.Function[strings.LastIndex(f.Function, "/")+1:]
			break
		}
		if !more {
			break
		}
	}
	return text + " in " + at
}

// exec performs one operation as task t.
func (w *World) exec(t, i int, op Op) {
	rec := &Rec{Task: t, Idx: i, Op: op}
	w.recs[t] = append(w.recs[t], rec)
	rt.Point()
	rec.Inv = rt.Clock()
	rt.CallBegin()
	func() {
		defer func() {
			if e := recover(); e != nil {
				switch x := e.(type) {
				case rt.Abort:
					panic(e)
				case exitPanic:
					rec.Exit = fmt.Sprintf("process exit with status %d", x.code)
				default:
					rec.Panic = panicText(e)
				}
			}
		}()
		w.do(rec)
	}()
	rt.CallEnd()
	rec.Ret = rt.Clock()
	if rec.Panic != "" {
		rec.Canon, rec.live = "panic "+rec.Panic, nil
	} else if rec.Exit != "" {
		rec.Canon, rec.live = "exit", nil
	} else if rec.live != nil {
		rec.Canon = rec.live()
		if op.Vandal && rec.vandal != nil {
			rec.vandal()
		}
	}
	rt.Point()
}

func extraText(ex []map[string]interface{}, sorted bool) string {
	parts := make([]string, len(ex))
	for i, e := range ex {
		b, err := json.Marshal(e)
		if err != nil {
			b = []byte("unrenderable")
		}
		parts[i] = string(b)
	}
	if sorted {
		sort.Strings(parts)
	}
	return "[" + strings.Join(parts, ",") + "]"
}

func ruleText(d int, ex []map[string]interface{}, r *MRule) string {
	return fmt.Sprintf("%d%s", d, extraText(ex, r != nil && r.Cond.unordered()))
}

func (w *World) mrule(set, rule int) *MRule {
	if set < len(w.sc.Sets) && rule < len(w.sc.Sets[set].Rules) {
		return &w.sc.Sets[set].Rules[rule]
	}
	return nil
}

func (w *World) message(op Op) *M.MessageAttributes {
	if op.Own {
		m, _ := w.build(op.Msg)
		return m
	}
	return w.msgs[op.Msg]
}

func checkText(d int, s string, rel int, per []string, app []int, desc string) string {
	return fmt.Sprintf("decision=%d %q relevant=%d applied=%v description=%q per-rule=%s", d, s, rel, app, desc, strings.Join(per, ";"))
}

func coverText(mc map[string]M.MessageCoverage, rc map[string][]string) string {
	a := []string{}
	for k, v := range mc {
		a = append(a, fmt.Sprintf("%s:%v/%d/%q/%v", k, v.Covered, v.Decision, v.IdsOfCoveringRules, v.DecisionsOfCoveringRules))
	}
	sort.Strings(a)
	b := []string{}
	for k, v := range rc {
		b = append(b, fmt.Sprintf("%s:%q", k, v))
	}
	sort.Strings(b)
	return strings.Join(a, " ") + " | " + strings.Join(b, " ")
}

func queryText(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "unrenderable " + err.Error()
	}
	return string(b)
}

func identity(r *M.Rule) string {
	return r.String() + " " + M.RuleMD5Hash(*r) + " " + M.RuleMD5HashConditions(*r)
}

// value is the rule to be passed by value. Copying a rule is an access of its
// owner, who has to keep it apart from re-binding; in race hunting runs the
// copies are made before the tasks start. They share their conditions.
func (w *World) value(r *M.Rule, set, rule int) *M.Rule {
	if w.sc.Prop == "C02" {
		return &w.vals[set][rule]
	}
	return r
}

func (w *World) do(rec *Rec) {
	op := rec.Op
	var rules *M.Rules
	var rule *M.Rule
	if op.Set < len(w.sets) {
		rules = w.sets[op.Set]
		if op.Rule < len(rules.Rules) {
			rule = &rules.Rules[op.Rule]
		}
	}
	switch op.K {
	case "check":
		w.doCheck(rec, rules, w.message(op))
	case "rcheck", "checkone":
		m := w.message(op)
		var d int
		var ex []map[string]interface{}
		if op.K == "rcheck" {
			d, ex = rule.Check(m)
		} else {
			d, ex = M.CheckOneRule(m, rule)
		}
		mr := w.mrule(op.Set, op.Rule)
		rec.live = func() string { return ruleText(d, ex, mr) }
		rec.vandal = func() { vandaliseExtra(ex) }
	case "tcond", "tcondf":
		m := w.message(op)
		var ok bool
		var ex []map[string]interface{}
		if op.K == "tcond" {
			ok, ex = rule.TestConditions(m)
		} else {
			ok, ex = M.TestConditions(rule, m)
		}
		mr := w.mrule(op.Set, op.Rule)
		rec.live = func() string { return fmt.Sprint(ok) + extraText(ex, mr != nil && mr.Cond.unordered()) }
		rec.vandal = func() { vandaliseExtra(ex) }
	case "mongo":
		res, err := rule.ToMongoQuery(op.Arg)
		rec.Err = err != nil
		rec.live = func() string {
			if rec.Err {
				return "error"
			}
			return string(res.Type) + " " + queryText(res.Query)
		}
		rec.vandal = func() { vandaliseQuery(res.Query) }
	case "bind":
		l := w.lists[op.Lists]
		if op.Arg == "reuse" {
			l = copyLists(l)
		}
		rec.Err = rule.SetPredefinedStringsAndLists(l) != nil
		if op.Arg == "reuse" {
			vandalise(&l) // the caller goes on to use its maps for something else
		}
		rec.live = func() string { return fmt.Sprint("err=", rec.Err) }
	case "setglobal":
		l := rawLists(&w.sc.Lists[op.Lists])
		switch {
		case op.Arg == "loaded" && w.listOK[op.Lists]:
			l = w.lists[op.Lists]
		case op.Arg == "same":
			l = w.raw[op.Lists]
		case op.Arg == "edited":
			// lists that were in use before, with new content
			e := w.lists[op.N]
			e.PredefinedStrings, e.PredefinedLists = l.PredefinedStrings, l.PredefinedLists
			l = e
		}
		rec.Err = M.SetGlobalPredefinedStringsAndLists(l) != nil
		if op.Arg == "reuse" {
			vandalise(&l)
		}
		rec.live = func() string { return fmt.Sprint("err=", rec.Err) }
	case "cover":
		var ms M.Messages
		for k := 0; k < op.N; k++ {
			m := w.message(Op{Msg: (op.Msg + k) % len(w.msgs), Own: op.Own})
			ms.Messages = append(ms.Messages, *m)
		}
		mc, rc := M.Coverage(&ms, rules)
		rec.PerRule = w.coverParts(op, mc)
		rec.live = func() string { return coverText(mc, rc) }
		rec.vandal = func() {
			for k, v := range mc {
				_ = append(v.IdsOfCoveringRules, "vandal")
				_ = append(v.DecisionsOfCoveringRules, 77)
				for i := range v.IdsOfCoveringRules {
					v.IdsOfCoveringRules[i] = "vandal"
				}
				for i := range v.DecisionsOfCoveringRules {
					v.DecisionsOfCoveringRules[i] = 77
				}
				mc[k] = M.MessageCoverage{}
			}
			for k, v := range rc {
				_ = append(v, "vandal")
				for i := range v {
					v[i] = "vandal"
				}
				rc[k] = append(rc[k], "x")
			}
			mc["vandal"] = M.MessageCoverage{}
			rc["vandal"] = nil
		}
	case "ident":
		s := identity(w.value(rule, op.Set, op.Rule))
		rec.live = func() string { return s }
	case "strings":
		s := M.GetRuleStrings(rule)
		rec.live = func() string { return fmt.Sprintf("%+v", s) }
	case "validate":
		err := M.ValidateRule(rule)
		rec.Err = err != nil
		rec.live = func() string { return fmt.Sprint("invalid=", rec.Err) }
	case "ends":
		m := w.message(op)
		a, b := M.TestSender(rule, m), M.TestReceiver(rule, m)
		rec.live = func() string { return fmt.Sprint(a, b) }
	case "print":
		w.value(rule, op.Set, op.Rule).Print()
		rec.live = func() string { return "" }
	case "condeq":
		k := op.N % len(rules.Rules)
		o := w.value(&rules.Rules[k], op.Set, k)
		eq := w.value(rule, op.Set, op.Rule).ConditionsEqual(*o)
		rec.live = func() string { return fmt.Sprint(eq) }
	case "prepared":
		p := rule.GetPreparedRule()
		s := ""
		if p != nil {
			s = p.Decision
		}
		rec.live = func() string { return s }
	case "json":
		b, err := json.Marshal(rule)
		rec.Err, rec.text = err != nil, string(b)
		rec.live = func() string { return string(b) }
	case "jsonset":
		b, err := json.Marshal(rules)
		rec.Err, rec.text = err != nil, string(b)
		rec.live = func() string { return string(b) }
	case "bson":
		b, err := bson.Marshal(rule)
		rec.Err, rec.text = err != nil, string(b)
		rec.live = func() string { return "" }
	case "load":
		var r M.Rules
		var err error
		text := w.texts[op.Set]
		if op.Lists > 0 {
			r, err = M.YamlReadRulesFromStringWithPredefinedStrings(text, w.lists[op.Lists])
		} else {
			r, err = M.YamlReadRulesFromString(text)
		}
		rec.Err = err != nil
		if err == nil {
			rec.loaded = &r
		}
		rec.live = func() string { return rulesText(&r, err) }
		rec.vandal = func() {
			vandalise(&r)
			if len(r.Rules) > 0 {
				r.Rules = append(r.Rules[:1], M.Rule{RuleID: "vandal"})
			}
		}
	case "freshcheck":
		r, err := M.YamlReadRulesFromString(w.texts[op.Set])
		if err != nil {
			rec.Err = true
			rec.live = func() string { return "load failed" }
			return
		}
		d, ex := r.Rules[op.Rule].Check(w.message(op))
		mr := w.mrule(op.Set, op.Rule)
		rec.live = func() string { return ruleText(d, ex, mr) }
		rec.vandal = func() { vandaliseExtra(ex) }
	case "derive":
		// a message made by a program, completed by the exported functions
		m, _ := w.build(op.Msg)
		m.RequestTime = w.sc.Msgs[op.Msg].time()
		m.SourceNetIp, m.DestinationNetIp, m.ContextType = nil, nil, ""
		m.RequestTimeSecondsFromMidnightUTC, m.RequestTimeMinutesFromMidnightUTC, m.RequestTimeHoursFromMidnightUTC = 0, 0, 0
		rec.Err = M.AddTimeInfoToMessage(m) != nil
		M.AddNetIpToMessage(m)
		M.AddResourceType(m)
		d, ex := rule.Check(m)
		mr := w.mrule(op.Set, op.Rule)
		rec.live = func() string { return ruleText(d, ex, mr) }
		rec.vandal = func() { vandaliseExtra(ex) }
	case "msgjson":
		m := w.message(op)
		a, err := m.ToJson()
		b, err2 := M.Messages{Messages: []M.MessageAttributes{*m}}.ToJson()
		rec.Err = err != nil || err2 != nil
		s := fmt.Sprintf("err=%v %s %s", rec.Err, a, b)
		rec.live = func() string { return s }
	case "prep":
		// rules prepared in place, their conditions evaluated directly
		r, err := M.YamlReadRulesFromString(w.texts[op.Set])
		if err == nil {
			err = M.PrepareRulesWithPredefinedStrings(&r, w.lists[op.Lists])
		}
		rec.Err = err != nil
		s := fmt.Sprint("err=", rec.Err)
		var ex []map[string]interface{}
		if err == nil {
			ok := true
			if t := r.Rules[op.Rule].Conditions.ConditionsTree; t != nil {
				ok, ex = t.Eval(w.message(op))
			}
			s += fmt.Sprint(" ", M.RuleToString(r.Rules[op.Rule]), " ", ok)
		}
		mr := w.mrule(op.Set, op.Rule)
		rec.live = func() string { return s + extraText(ex, mr != nil && mr.Cond.unordered()) }
		rec.vandal = func() { vandaliseExtra(ex) }
	case "loadtext", "loadjson", "loadbson":
		var r M.Rules
		var err error
		if op.K == "loadjson" {
			if err = json.Unmarshal([]byte(w.sc.Texts[op.N]), &r); err != nil {
				r = M.Rules{}
			}
		} else if op.K == "loadbson" {
			var x M.Rule
			if err = bson.Unmarshal([]byte(w.sc.Texts[op.N]), &x); err == nil {
				r.Rules = []M.Rule{x}
			}
		} else if op.Bound {
			r, err = M.YamlReadRulesFromStringWithPredefinedStrings(string(w.sc.Texts[op.N]), w.lists[op.Lists])
		} else {
			r, err = M.YamlReadRulesFromString(string(w.sc.Texts[op.N]))
		}
		rec.Err = err != nil
		if err == nil {
			rec.loaded = &r
		} else if len(r.Rules) != 0 {
			rec.note("failed load returned rules")
		}
		s := rulesText(&r, err)
		if op.Arg == "answers" && err == nil {
			s += "\n" + w.answers(&r, op)
		}
		rec.live = func() string { return s }
		if op.Arg == "use" {
			w.useAll(rec, op)
		}
	case "loadlists":
		l, err := M.YamlReadStringListsFromString(string(w.sc.Texts[op.N]))
		rec.Err = err != nil
		if err != nil && (l.PredefinedLists != nil || l.PredefinedStrings != nil) {
			rec.note("failed load returned lists")
		}
		s := fmt.Sprintf("err=%v %v", rec.Err, l)
		if op.Arg == "answers" && err == nil && rules != nil {
			fresh, _ := M.YamlReadRulesFromString(w.texts[op.Set])
			var bound M.Rules
			for i := range fresh.Rules {
				r := &fresh.Rules[i]
				err := r.SetPredefinedStringsAndLists(l)
				s += fmt.Sprint("\n", err == nil)
				if err == nil {
					bound.Rules = append(bound.Rules, *r)
				}
			}
			s += "\n" + w.answers(&bound, Op{Bound: true})
		}
		rec.live = func() string { return s }
		if op.Arg == "" {
			rec.live = func() string { return fmt.Sprintf("err=%v %v", rec.Err, l) }
			rec.vandal = func() { vandalise(&l) }
		}
		if err == nil && op.Arg == "use" && rules != nil {
			for i := range rules.Rules {
				r := rules.Rules[i]
				_ = r.SetPredefinedStringsAndLists(l)
				r.Check(w.message(op))
				_, _ = r.ToMongoQuery("raw")
			}
		}
	case "loadmsgs":
		ms, err := M.YamlReadMessagesFromString(string(w.sc.Texts[op.N]))
		rec.Err = err != nil
		if err != nil && len(ms.Messages) != 0 {
			rec.note("failed load returned messages")
		}
		if err == nil && op.Arg == "use" {
			for i := range ms.Messages {
				M.Check(&ms.Messages[i], rules)
			}
			M.Coverage(&ms, rules)
		}
		rec.live = func() string {
			b, _ := json.Marshal(ms)
			return fmt.Sprintf("err=%v %s", rec.Err, b)
		}
		rec.vandal = func() { vandalise(&ms) }
	case "loadmsg":
		m, err := M.YamlReadMessageAttributes(string(w.sc.Texts[op.N]))
		rec.Err = err != nil
		if err == nil && op.Arg == "use" {
			M.Check(&m, rules)
		}
		rec.live = func() string {
			b, _ := json.Marshal(m)
			return fmt.Sprintf("err=%v %s", rec.Err, b)
		}
		rec.vandal = func() { vandalise(&m) }
	case "loadcheck":
		ms, err := M.YamlReadMessagesFromString(msgsYaml(w.sc.Msgs))
		rec.Err = err != nil
		parts := []string{}
		for i := range ms.Messages {
			r := &Rec{Op: op}
			w.doCheck(r, rules, &ms.Messages[i])
			parts = append(parts, r.live())
		}
		s := strings.Join(parts, "\n")
		rec.live = func() string { return s }
	case "observe":
		if s := w.inputsChanged(op.Msg); s != "" {
			rec.note(s)
		}
		rec.live = func() string { return "" }
	case "ffile":
		w.doFile(rec)
	case "swap":
		w.fs.swap(op.N)
		rec.live = func() string { return "" }
	case "clock":
		w.host.jump(int64(op.N))
		rec.live = func() string { return "" }
	case "zone":
		w.host.zone(op.N)
		rec.live = func() string { return "" }
	default:
		panic("unknown operation " + op.K)
	}
}

func rulesText(r *M.Rules, err error) string {
	if err != nil {
		return fmt.Sprintf("error, %d rules", len(r.Rules))
	}
	parts := []string{}
	for i := range r.Rules {
		x := &r.Rules[i]
		parts = append(parts, fmt.Sprintf("%s %s %v", x.RuleID, identity(x), x.Metadata))
	}
	return strings.Join(parts, "\n")
}

// answers of loaded rules to all messages.
func (w *World) answers(rs *M.Rules, op Op) string {
	parts := []string{}
	for i := range rs.Rules {
		r := &rs.Rules[i]
		if op.Lists > 0 && !op.Bound {
			err := r.SetPredefinedStringsAndLists(w.lists[op.Lists])
			parts = append(parts, fmt.Sprint("bound=", err == nil))
			if err != nil {
				continue
			}
		} else if !op.Bound {
			continue // would be answered with the lists that happen to be global
		}
		for k := range w.sc.Msgs {
			m, _ := w.build(k)
			d, ex := r.Check(m)
			parts = append(parts, fmt.Sprint(d)+extraText(ex, true))
		}
	}
	return strings.Join(parts, ";")
}

// useAll does everything one can do with loaded rules.
func (w *World) useAll(rec *Rec, op Op) {
	if rec.loaded == nil {
		return
	}
	rs := rec.loaded
	for i := range rs.Rules {
		r := &rs.Rules[i]
		_ = identity(r)
		_ = M.GetRuleStrings(r)
		_ = M.ValidateRule(r)
		_, _ = json.Marshal(r)
		_, _ = bson.Marshal(r)
		_ = r.ConditionsEqual(rs.Rules[0])
		for k := range w.msgs {
			m, _ := w.build(k)
			c := rs.Rules[i]
			c.Check(m)
			c.TestConditions(m)
		}
		_, _ = r.ToMongoQuery("raw")
		if op.Lists > 0 {
			_ = r.SetPredefinedStringsAndLists(w.lists[op.Lists])
		}
		r.Print()
		r.ToLower()
	}
	for k := range w.msgs {
		m, _ := w.build(k)
		M.Check(m, rs)
	}
	ms := &M.Messages{}
	for k := range w.msgs {
		m, _ := w.build(k)
		ms.Messages = append(ms.Messages, *m)
	}
	M.Coverage(ms, rs)
}

// coverParts are the decisions of all messages and rules a report states.
func (w *World) coverParts(op Op, mc map[string]M.MessageCoverage) []string {
	out := []string{}
	for k := 0; k < op.N; k++ {
		c := mc[w.sc.Msgs[(op.Msg+k)%len(w.sc.Msgs)].ID]
		for _, r := range w.sc.Sets[op.Set].Rules {
			d := 0
			for i, id := range c.IdsOfCoveringRules {
				if id == r.ID && i < len(c.DecisionsOfCoveringRules) {
					d = c.DecisionsOfCoveringRules[i]
				}
			}
			out = append(out, fmt.Sprint(d))
		}
	}
	return out
}

func (w *World) doCheck(rec *Rec, rules *M.Rules, m *M.MessageAttributes) {
	d, s, rel, res, app, desc, ex := M.Check(m, rules)
	set := rec.Op.Set
	per := func() []string {
		out := make([]string, len(res))
		for i := range res {
			var e []map[string]interface{}
			if i < len(ex) {
				e = ex[i]
			}
			out[i] = ruleText(res[i], e, w.mrule(set, i))
		}
		return out
	}
	rec.PerRule = per()
	rec.live = func() string { return checkText(d, s, rel, per(), app, desc) }
	rec.vandal = func() {
		_ = append(res, 77)
		_ = append(app, 77)
		for i := range res {
			res[i] = 77
		}
		for i := range app {
			app[i] = 77
		}
		for i := range ex {
			vandaliseExtra(ex[i])
			ex[i] = nil
		}
	}
}

// vandalise changes everything that can be reached and changed from outside
// the package.
func vandalise(p interface{}) {
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() && !seen[v.Pointer()] {
				seen[v.Pointer()] = true
				walk(v.Elem())
			}
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					walk(v.Field(i))
				}
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
			if n := v.Len(); n < v.Cap() {
				walk(v.Slice(0, n+1).Index(n))
			}
		case reflect.Map:
			for _, k := range v.MapKeys() {
				walk(v.MapIndex(k))
				if v.Type().Elem().Kind() == reflect.String {
					v.SetMapIndex(k, reflect.ValueOf("vandal").Convert(v.Type().Elem()))
				} else {
					v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
				}
			}
			if v.Type().Key().Kind() == reflect.String && !v.IsNil() {
				v.SetMapIndex(reflect.ValueOf("vandal").Convert(v.Type().Key()), reflect.Zero(v.Type().Elem()))
			}
		case reflect.String:
			if v.CanSet() {
				v.SetString("vandal")
			}
		case reflect.Int, reflect.Int64:
			if v.CanSet() {
				v.SetInt(77)
			}
		case reflect.Uint8:
			if v.CanSet() {
				v.SetUint(v.Uint() ^ 0x55)
			}
		case reflect.Float64:
			if v.CanSet() {
				v.SetFloat(77)
			}
		case reflect.Bool:
			if v.CanSet() {
				v.SetBool(!v.Bool())
			}
		}
	}
	walk(reflect.ValueOf(p))
}

// vandaliseExtra changes only what the engine allocated: the list and its
// maps, not the values, which may belong to the caller's payload.
func vandaliseExtra(ex []map[string]interface{}) {
	_ = append(ex, extra{"vandal": 1})
	for i, e := range ex {
		if e != nil {
			for k := range e {
				e[k] = "vandal"
			}
			e["vandal"] = 1
		}
		ex[i] = nil
	}
}

func vandaliseQuery(v interface{}) {
	switch x := v.(type) {
	case bson.M:
		for k, e := range x {
			vandaliseQuery(e)
			x[k] = "vandal"
		}
		x["vandal"] = 1
	case []bson.M:
		_ = append(x, bson.M{"vandal": 1})
		for i := range x {
			vandaliseQuery(x[i])
			x[i] = bson.M{"vandal": 1}
		}
	}
}

// inputsChanged compares a shared message with a pristine copy.
func (w *World) inputsChanged(i int) string {
	want, buf := w.build(i)
	got := w.msgs[i]
	if got.RequestJsonRawRelative != nil || got.RequestRawInterfaceRelative != nil {
		return fmt.Sprintf("message %d: cursor into the payload is visible to its owner", i)
	}
	if !bytes.Equal(buf, w.raws[i]) {
		return fmt.Sprintf("message %d: raw payload buffer changed: %q", i, w.raws[i])
	}
	if !reflect.DeepEqual(want, got) {
		return fmt.Sprintf("message %d changed", i)
	}
	return ""
}

// listsChanged compares the lists the library was given with what they were.
func (w *World) listsChanged(i int) string {
	want := rawLists(&w.sc.Lists[i])
	for _, l := range []M.PredefinedStringsAndLists{w.raw[i], w.lists[i]} {
		if fmt.Sprint(l.PredefinedStrings) != fmt.Sprint(want.PredefinedStrings) || fmt.Sprintf("%q", l.PredefinedLists) != fmt.Sprintf("%q", want.PredefinedLists) {
			return fmt.Sprintf("lists %d: the strings and lists given to the library were changed: %q %q, were %q %q", i, l.PredefinedStrings, l.PredefinedLists, want.PredefinedStrings, want.PredefinedLists)
		}
	}
	if got := w.lists[i].PredefinedListsWithoutRefs; fmt.Sprintf("%q", got) != fmt.Sprintf("%q", w.noRefs[i]) {
		return fmt.Sprintf("lists %d: the loaded lists given to the library were changed: %q, were %q", i, got, w.noRefs[i])
	}
	return ""
}

// ---- file loaders ----

func (w *World) doFile(rec *Rec) {
	f := w.sc.Files[rec.Op.N]
	path := fmt.Sprintf("%s%d", simRoot, rec.Op.N)
	w.fs.begin(rec.Task)
	var err error
	var empty bool
	switch f.Kind {
	case "rules":
		var r M.Rules
		if rec.Op.Lists > 0 {
			r, err = M.YamlReadRulesFromFileWithPredefinedStrings(path, w.lists[rec.Op.Lists])
		} else {
			r, err = M.YamlReadRulesFromFile(path)
		}
		empty = len(r.Rules) == 0
		rec.text = rulesText(&r, nil)
		if err == nil {
			rec.loaded = &r
			if rec.Op.Lists > 0 {
				rec.text += "\n" + w.answers(&r, Op{Bound: true})
			}
		}
	case "lists":
		var l M.PredefinedStringsAndLists
		l, err = M.YamlReadStringListsFromFile(path)
		empty = len(l.PredefinedLists) == 0 && len(l.PredefinedStrings) == 0
		rec.text = fmt.Sprint(l.PredefinedStrings, l.PredefinedLists, l.PredefinedListsWithoutRefs)
	case "msgs":
		var m M.Messages
		m, err = M.YamlReadMessagesFromFile(path)
		empty = len(m.Messages) == 0
		b, _ := json.Marshal(m)
		rec.text = string(b)
	case "bin":
		var b []byte
		b, err = M.ReadBinaryFile(path)
		empty = len(b) == 0
		rec.text = string(b)
	}
	rec.Err = err != nil
	rec.file = w.fs.end(rec.Task)
	if err != nil && !empty {
		rec.note(fmt.Sprintf("%s loader returned error %q together with data", f.Kind, err))
	}
	if w.fs.left(rec.Task) {
		rec.note(f.Kind + " loader left its file open")
	}
	rec.live = func() string { return fmt.Sprint("err=", rec.Err) }
}

// reference renders what the loaders make of exactly these bytes.
func (w *World) reference(kind string, data []byte, lists int) (string, bool) {
	switch kind {
	case "rules":
		var r M.Rules
		var err error
		if lists > 0 {
			r, err = M.YamlReadRulesFromStringWithPredefinedStrings(string(data), w.lists[lists])
		} else {
			r, err = M.YamlReadRulesFromString(string(data))
		}
		if lists > 0 && err == nil {
			return rulesText(&r, nil) + "\n" + w.answers(&r, Op{Bound: true}), true
		}
		return rulesText(&r, nil), err == nil
	case "lists":
		l, err := M.YamlReadStringListsFromString(string(data))
		return fmt.Sprint(l.PredefinedStrings, l.PredefinedLists, l.PredefinedListsWithoutRefs), err == nil
	case "msgs":
		m, err := M.YamlReadMessagesFromString(string(data))
		b, _ := json.Marshal(m)
		return string(b), err == nil
	}
	return string(data), true
}
