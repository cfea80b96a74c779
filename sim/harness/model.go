package main

import (
	"encoding/json"
	"fmt"
	"net"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// The reference model: MAPL rules as plain data, evaluated by plain recursion
// over decoded documents. It shares no code and no state with the engine.

type MCond struct {
	K      string            `json:"k"` // and or not any all leaf
	Subs   []*MCond          `json:"subs,omitempty"`
	Parent string            `json:"parent,omitempty"`
	Attr   string            `json:"attr,omitempty"`
	Method string            `json:"method,omitempty"`
	Value  string            `json:"value,omitempty"`
	Ret    map[string]string `json:"ret,omitempty"`
}

type MRule struct {
	ID       string `json:"id"`
	Sender   string `json:"sender"`
	SType    string `json:"stype"`
	Receiver string `json:"receiver"`
	RType    string `json:"rtype"`
	Proto    string `json:"proto"`
	ResType  string `json:"restype"`
	ResName  string `json:"resname"`
	Op       string `json:"op"`
	Decision string `json:"decision"`
	Desc     string `json:"desc,omitempty"`
	Cond     *MCond `json:"cond,omitempty"`
}

type MLists struct {
	Strings map[string]string   `json:"strings"`
	Lists   map[string][]string `json:"lists"`
}

// resolved tells whether every reference inside the lists is defined, and
// returns the lists with references replaced.
func (l *MLists) resolved() (map[string][]string, bool) {
	out := map[string][]string{}
	for k, vs := range l.Lists {
		o := []string{}
		for _, v := range vs {
			if strings.HasPrefix(v, "#") {
				s, ok := l.Strings[v[1:]]
				if !ok {
					return nil, false
				}
				v = s
			}
			o = append(o, v)
		}
		out[k] = o
	}
	return out, true
}

type MMsg struct {
	ID      string            `json:"id"`
	Src     string            `json:"src"`
	Dst     string            `json:"dst"`
	Host    string            `json:"host"`
	SrcIP   string            `json:"srcip"`
	DstIP   string            `json:"dstip"`
	Port    string            `json:"port"`
	Proto   string            `json:"proto"`
	Path    string            `json:"path"`
	Method  string            `json:"method"`
	Size    int64             `json:"size"`
	Agent   string            `json:"agent"`
	Time    string            `json:"time"`         // hh:mm:ss
	TZ      string            `json:"tz,omitempty"` // offset, Z if empty
	SrcNs   string            `json:"srcns"`
	DstNs   string            `json:"dstns"`
	SrcCl   string            `json:"srccl"`
	DstCl   string            `json:"dstcl"`
	EncType string            `json:"enctype"`
	EncVer  *float64          `json:"encver,omitempty"`
	Domain  string            `json:"domain"`
	SrcLab  map[string]string `json:"srclab,omitempty"`
	DstLab  map[string]string `json:"dstlab,omitempty"`
	Rep     string            `json:"rep"`            // i: decoded object, b: JSON text, ib: both, "": no payload
	Bare    bool              `json:"bare,omitempty"` // given without what loading would derive
	Doc     interface{}       `json:"doc,omitempty"`
	Style   int               `json:"style,omitempty"` // how the JSON text is written
	Spare   int               `json:"spare,omitempty"` // spare capacity behind the JSON text
	Raw     Bytes             `json:"raw,omitempty"`   // damaged payload text (rep r)
	RawDoc  interface{}       `json:"rawdoc,omitempty"`
	NoTime  bool              `json:"notime,omitempty"`
}

type extra = map[string]interface{}

// prepare replaces references; ok is false when the engine must refuse.
func (r *MRule) prepare(l *MLists) (*MRule, bool) {
	lists, ok := l.resolved()
	if !ok {
		return nil, false
	}
	c := *r
	sub := func(v string) (string, bool) {
		if !strings.HasPrefix(v, "#") {
			return v, true
		}
		if x, ok := lists[v[1:]]; ok {
			return strings.Join(x, ","), true
		}
		s, ok := l.Strings[v[1:]]
		return s, ok
	}
	if c.Sender, ok = sub(c.Sender); !ok {
		return nil, false
	}
	if c.Receiver, ok = sub(c.Receiver); !ok {
		return nil, false
	}
	for _, e := range []struct{ n, t string }{{c.Sender, c.SType}, {c.Receiver, c.RType}} {
		if e.t == "subnet" {
			for _, s := range strings.Split(e.n, ",") {
				if s == "*" {
					continue
				}
				if _, _, err := net.ParseCIDR(s); err != nil && net.ParseIP(s) == nil {
					return nil, false
				}
			}
		}
	}
	c.Cond, ok = r.Cond.prepare(l, lists)
	return &c, ok
}

func (c *MCond) prepare(l *MLists, lists map[string][]string) (*MCond, bool) {
	if c == nil {
		return nil, true
	}
	d := *c
	d.Subs = nil
	for _, s := range c.Subs {
		x, ok := s.prepare(l, lists)
		if !ok {
			return nil, false
		}
		d.Subs = append(d.Subs, x)
	}
	if c.K == "leaf" && strings.HasPrefix(c.Value, "#") {
		m := strings.ToUpper(c.Method)
		if x, ok := lists[c.Value[1:]]; ok {
			if m == "RE" || m == "NRE" {
				d.Value = strings.Join(x, "|")
			} else {
				d.Value = strings.Join(x, ",")
			}
		} else if s, ok := l.Strings[c.Value[1:]]; ok {
			d.Value = s
		} else {
			return nil, false
		}
		if (m == "IN" || m == "NIN") && d.Value == "" {
			return nil, false
		}
		if m == "RE" || m == "NRE" {
			if _, err := regexp.Compile(d.Value); err != nil {
				return nil, false
			}
		}
	}
	return &d, true
}

func globOne(pat, s string) bool {
	// * any run, ? any one character
	if pat == "" {
		return s == ""
	}
	switch pat[0] {
	case '*':
		for i := 0; i <= len(s); i++ {
			if globOne(pat[1:], s[i:]) {
				return true
			}
		}
		return false
	case '?':
		return s != "" && globOne(pat[1:], s[1:])
	}
	return s != "" && s[0] == pat[0] && globOne(pat[1:], s[1:])
}

func globList(list, s string) bool {
	for _, p := range strings.Split(list, ",") {
		if globOne(strings.TrimSpace(p), s) {
			return true
		}
	}
	return false
}

func endpoint(names, typ, service, host, ip string, receiver, bare bool) bool {
	switch typ {
	case "subnet":
		for _, n := range strings.Split(names, ",") {
			if n == "*" {
				n = "0.0.0.0/0"
			}
			if _, cidr, err := net.ParseCIDR(n); err == nil {
				if a := net.ParseIP(ip); a != nil && !bare && cidr.Contains(a) {
					return true
				}
			} else if n == ip {
				return true
			}
		}
		return false
	case "hostname":
		return receiver && globList(names, host)
	case "*", "workload":
		return globList(names, service)
	}
	return false
}

func (r *MRule) matchesOp(m string) bool {
	switch r.Op {
	case "*":
		return true
	case "read", "READ":
		return in(m, "GET", "HEAD", "OPTIONS", "TRACE", "read", "READ")
	case "write", "WRITE":
		return in(m, "POST", "PUT", "DELETE")
	}
	return globList(r.Op, m)
}

func in(s string, xs ...string) bool {
	for _, x := range xs {
		if s == x {
			return true
		}
	}
	return false
}

func ctxType(proto string) string {
	switch proto {
	case "HTTP", "http":
		return "path"
	case "TCP", "tcp":
		return "port"
	}
	return ""
}

var decisionCode = map[string]int{"allow": 1, "alert": 2, "block": 3}

// eval returns the decision of a prepared rule and its extra data.
func (r *MRule) eval(m *MMsg) (int, []extra) {
	none := []extra{}
	if !endpoint(r.Sender, r.SType, m.Src, "", m.SrcIP, false, m.Bare) ||
		!endpoint(r.Receiver, r.RType, m.Dst, m.Host, m.DstIP, true, m.Bare) ||
		!r.matchesOp(m.Method) {
		return 0, none
	}
	if r.Proto == "tcp" {
		if !globList(r.ResName, m.Port) {
			return 0, none
		}
	} else if r.Proto != "*" {
		if !strings.EqualFold(r.Proto, m.Proto) ||
			(r.ResType != "*" && (m.Bare || r.ResType != ctxType(m.Proto))) ||
			!globList(r.ResName, m.Path) {
			return 0, none
		}
	}
	ex := none
	if r.Cond != nil {
		ok, e := r.Cond.eval(&env{m: m})
		if !ok {
			return 0, none
		}
		ex = e
	}
	d := decisionCode[strings.ToLower(r.Decision)]
	if d == 0 {
		return 0, none
	}
	return d, ex
}

// testConditions models the call of that name.
func (r *MRule) testConditions(m *MMsg) (bool, []extra) {
	if r.Cond == nil {
		return false, []extra{}
	}
	return r.Cond.eval(&env{m: m})
}

type env struct {
	m   *MMsg
	rel interface{}
	has bool
}

func (c *MCond) eval(e *env) (bool, []extra) {
	switch c.K {
	case "and":
		ex := []extra{}
		for _, s := range c.Subs {
			ok, x := s.eval(e)
			if len(x) > 0 {
				ex = x
			}
			if !ok {
				return false, ex
			}
		}
		return true, ex
	case "or":
		ex := []extra{}
		res := false
		for _, s := range c.Subs {
			ok, x := s.eval(e)
			if ok {
				res = true
				ex = append(ex, x...)
			}
		}
		return res, ex
	case "not":
		ok, _ := c.Subs[0].eval(e)
		return !ok, []extra{}
	case "any", "all":
		elems, ok := elements(c.Parent, e)
		if !ok {
			return false, []extra{}
		}
		ex := []extra{}
		res := c.K == "all"
		for _, el := range elems {
			ok, _ := c.Subs[0].eval(&env{m: e.m, rel: el, has: true})
			if c.K == "all" {
				res = res && ok
				continue
			}
			if ok {
				res = true
				if len(c.Ret) > 0 {
					x := extra{}
					for k, p := range c.Ret {
						if v, found := retValue(strings.TrimPrefix(p, "$RELATIVE"), el, e.m.Rep); found {
							x[k] = v
						}
					}
					ex = append(ex, x)
				}
			}
		}
		return res, ex
	}
	ok := c.leaf(e)
	if ok && len(c.Ret) > 0 && strings.HasPrefix(c.Attr, "jsonpath:") {
		x := extra{}
		for k, p := range c.Ret {
			if v, found := retValue(strings.TrimPrefix(p, "$"), e.m.Doc, e.m.Rep); found {
				x[k] = v
			}
		}
		return ok, []extra{x}
	}
	return ok, []extra{}
}

func retValue(path string, doc interface{}, rep string) (interface{}, bool) {
	if path == "*" {
		return doc, true
	}
	v, why := walk(doc, path)
	if why != found {
		return nil, rep != "b" && why == noKey
	}
	return v, true
}

const (
	found = iota
	noKey
	badShape
)

func nav(doc interface{}, path string) (interface{}, bool) {
	v, why := walk(doc, path)
	return v, why == found
}

// walk follows .name, ['name'] and [index] steps.
func walk(doc interface{}, path string) (interface{}, int) {
	for path != "" {
		var key string
		switch {
		case strings.HasPrefix(path, "['"):
			end := strings.Index(path, "']")
			key, path = path[2:end], path[end+2:]
		case path[0] == '[':
			end := strings.IndexByte(path, ']')
			i, err := strconv.Atoi(path[1:end])
			a, ok := doc.([]interface{})
			if err != nil || !ok || i >= len(a) {
				return nil, badShape
			}
			doc, path = a[i], path[end+1:]
			continue
		case path[0] == '.':
			end := strings.IndexAny(path[1:], ".[")
			if end < 0 {
				key, path = path[1:], ""
			} else {
				key, path = path[1:end+1], path[end+1:]
			}
		default:
			panic("bad path " + path)
		}
		m, ok := doc.(map[string]interface{})
		if !ok {
			return nil, badShape
		}
		if doc, ok = m[key]; !ok {
			return nil, noKey
		}
	}
	return doc, found
}

// elements lists what an ANY/ALL node iterates over.
func elements(parent string, e *env) ([]interface{}, bool) {
	if e.m.Rep == "" {
		return nil, false
	}
	out := []interface{}{}
	for _, p := range strings.Split(parent, ",") {
		root := e.m.Doc
		path := strings.TrimPrefix(p, "$")
		if strings.HasPrefix(path, "RELATIVE") {
			if !e.has {
				return nil, false
			}
			root = e.rel
			path = strings.TrimPrefix(path, "RELATIVE")
		}
		if path == "*" {
			path = ""
		}
		if strings.HasPrefix(path, "..") {
			for _, v := range deep(root, strings.TrimSuffix(path[2:], "[:]")) {
				if a, ok := v.([]interface{}); ok && strings.HasSuffix(path, "]") {
					out = append(out, a...)
				} else if !strings.HasSuffix(path, "]") {
					out = append(out, v)
				}
			}
			continue
		}
		if i := strings.Index(path, "[:]."); i >= 0 {
			// list of lists: all inner elements in order
			outer, _ := nav(root, path[:i])
			a, _ := outer.([]interface{})
			for _, o := range a {
				v, _ := nav(o, strings.TrimSuffix(path[i+3:], "[:]"))
				if b, ok := v.([]interface{}); ok {
					out = append(out, b...)
				}
			}
			continue
		}
		list := strings.HasSuffix(path, "]")
		path = strings.TrimSuffix(strings.TrimSuffix(path, "[:]"), "[*]")
		v, ok := nav(root, path)
		if !ok {
			continue
		}
		switch x := v.(type) {
		case []interface{}:
			out = append(out, x...)
		case map[string]interface{}:
			if list {
				continue
			}
			keys := make([]string, 0, len(x))
			for k := range x {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				out = append(out, map[string]interface{}{k: x[k]})
			}
		}
	}
	return out, true
}

// deep finds what has a name at any depth.
func deep(v interface{}, name string) []interface{} {
	out := []interface{}{}
	switch x := v.(type) {
	case map[string]interface{}:
		if e, ok := x[name]; ok {
			out = append(out, e)
		}
		for _, k := range docKeys(x) {
			out = append(out, deep(x[k], name)...)
		}
	case []interface{}:
		for _, e := range x {
			out = append(out, deep(e, name)...)
		}
	}
	return out
}

func number(s string) (float64, bool) {
	units := []struct {
		u string
		f float64
	}{{"%", 1e-2}, {"Ki", 1024}, {"Mi", 1024 * 1024}, {"K", 1e3}, {"M", 1e6}, {"m", 0.001}}
	f := 1.0
	for _, u := range units {
		if strings.HasSuffix(s, u.u) {
			s, f = strings.TrimSuffix(s, u.u), u.f
			break
		}
	}
	v, err := strconv.ParseFloat(s, 64)
	return v * f, err == nil
}

func (c *MCond) leaf(e *env) bool {
	m := e.m
	method := strings.ToUpper(c.Method)
	switch {
	case c.Attr == "true":
		return true
	case c.Attr == "false":
		return false
	case c.Attr == "payloadSize":
		v, _ := strconv.ParseFloat(c.Value, 64)
		return cmpFloat(float64(m.Size), method, v)
	case c.Attr == "utcHoursFromMidnight":
		if m.NoTime || m.Bare {
			v, _ := strconv.ParseFloat(c.Value, 64)
			return cmpFloat(0, method, v)
		}
		var h, mi, s int
		fmt.Sscanf(m.Time, "%d:%d:%d", &h, &mi, &s)
		v, _ := strconv.ParseFloat(c.Value, 64)
		ns := float64(((h*60+mi)*60 + s) * 1e9)
		return cmpFloat(ns/1e9/60/60, method, v)
	case c.Attr == "encryptionVersion":
		if m.EncVer == nil {
			return false
		}
		v, _ := strconv.ParseFloat(c.Value, 64)
		return cmpFloat(*m.EncVer, method, v)
	case c.Attr == "requestUseragent":
		return c.cmpString(m.Agent, method)
	case c.Attr == "encryptionType":
		return c.cmpString(m.EncType, method)
	case c.Attr == "domain":
		return c.cmpString(m.Domain, method)
	case strings.HasPrefix(c.Attr, "$sender."), strings.HasPrefix(c.Attr, "$receiver."):
		v := objectAttr(c.Attr, m)
		if strings.HasPrefix(c.Value, "$receiver.") {
			o := objectAttr(c.Value, m)
			return (method == "EQ" && v == o) || (method == "NEQ" && v != o)
		}
		return c.cmpString(v, method)
	case strings.HasPrefix(c.Attr, "senderLabel["), strings.HasPrefix(c.Attr, "receiverLabel["):
		if m.Bare {
			return false
		}
		labels := m.SrcLab
		if c.Attr[0] == 'r' {
			labels = m.DstLab
		}
		v, ok := labels[labelKey(c.Attr)]
		if !ok {
			return false
		}
		if strings.HasPrefix(c.Value, "receiverLabel[") {
			o, ok := m.DstLab[labelKey(c.Value)]
			return ok && ((method == "EQ" && v == o) || (method == "NEQ" && v != o))
		}
		if method == "EX" {
			return true
		}
		return c.cmpString(v, method)
	}
	return c.jsonLeaf(e, method)
}

func labelKey(s string) string { return s[strings.Index(s, "[")+1 : strings.Index(s, "]")] }

func objectAttr(a string, m *MMsg) string {
	switch a {
	case "$sender.namespace":
		return m.SrcNs
	case "$sender.cluster":
		return m.SrcCl
	case "$receiver.namespace":
		return m.DstNs
	case "$receiver.cluster":
		return m.DstCl
	}
	return ""
}

func cmpFloat(a float64, method string, b float64) bool {
	switch method {
	case "EQ":
		return a == b
	case "NEQ", "NE":
		return a != b
	case "LE":
		return a <= b
	case "LT":
		return a < b
	case "GE":
		return a >= b
	case "GT":
		return a > b
	}
	return false
}

func member(list, v string) bool {
	list = strings.Replace(strings.Replace(list, "[", "", -1), "]", "", -1)
	return in(v, strings.Split(list, ",")...)
}

func (c *MCond) cmpString(v, method string) bool {
	switch method {
	case "EQ":
		return regexp.MustCompile("^" + c.Value + "$").MatchString(v)
	case "NEQ", "NE":
		return !regexp.MustCompile("^" + c.Value + "$").MatchString(v)
	case "RE":
		return regexp.MustCompile(c.Value).MatchString(v)
	case "NRE":
		return !regexp.MustCompile(c.Value).MatchString(v)
	case "IN", "IS":
		return member(c.Value, v)
	case "NIN":
		return !member(c.Value, v)
	case "EX":
		return v != ""
	case "NEX":
		return v == ""
	}
	return false
}

func (c *MCond) jsonLeaf(e *env, method string) bool {
	if e.m.Rep == "" {
		return false
	}
	path := strings.TrimPrefix(c.Attr, "jsonpath:")
	var v interface{}
	var ok bool
	switch {
	case strings.HasPrefix(path, "$RELATIVE"):
		if !e.has {
			return false
		}
		v, ok = nav(e.rel, strings.TrimPrefix(path, "$RELATIVE"))
	case strings.HasPrefix(path, "$KEY"), strings.HasPrefix(path, "$VALUE"):
		if !e.has {
			return false
		}
		if o, isMap := e.rel.(map[string]interface{}); isMap && len(o) == 1 {
			for k, x := range o {
				if path == "$KEY" {
					v, ok = k, true
				} else {
					v, ok = nav(x, strings.TrimPrefix(path, "$VALUE"))
				}
			}
		}
	default:
		v, ok = nav(e.m.Doc, strings.TrimPrefix(path, "$"))
	}
	s := ""
	if ok {
		switch x := v.(type) {
		case nil:
		case string:
			s = x
		case float64:
			s = strconv.FormatFloat(x, 'f', -1, 64)
		case bool:
			s = strconv.FormatBool(x)
		default:
			b, _ := json.Marshal(x)
			s = string(b)
		}
	}
	if s == "" {
		return method == "NEX"
	}
	switch method {
	case "EX":
		return true
	case "NEX":
		return false
	case "RE", "NRE":
		return regexp.MustCompile(c.Value).MatchString(s) == (method == "RE")
	case "IN", "NIN", "IS":
		return member(c.Value, s) == (method != "NIN")
	}
	want, isNum := number(c.Value)
	if !isNum {
		return (method == "EQ" && s == c.Value) || (method == "NEQ" && s != c.Value)
	}
	got, gotNum := number(s)
	if !gotNum {
		return method == "NEQ"
	}
	return cmpFloat(got, method, want)
}

// unordered tells whether extra data of the tree may be collected over an
// object, in which case its order is not specified.
func (c *MCond) unordered() bool {
	if c == nil {
		return false
	}
	if c.K == "any" && len(c.Ret) > 0 && (!strings.HasSuffix(c.Parent, "]") || strings.HasPrefix(c.Parent, "$..")) {
		return true
	}
	for _, s := range c.Subs {
		if s.unordered() {
			return true
		}
	}
	return false
}

// ---- text forms ----

func q(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

func (c *MCond) yaml(b *strings.Builder, ind string) {
	switch c.K {
	case "and", "or":
		if len(c.Subs) == 0 {
			fmt.Fprintf(b, "%s%s: []\n", ind, strings.ToUpper(c.K))
		} else {
			fmt.Fprintf(b, "%s%s:\n", ind, strings.ToUpper(c.K))
		}
		for _, s := range c.Subs {
			var sb strings.Builder
			s.yaml(&sb, ind+"  ")
			t := sb.String()
			b.WriteString(ind + "- " + t[len(ind)+2:])
		}
	case "not":
		fmt.Fprintf(b, "%sNOT:\n", ind)
		c.Subs[0].yaml(b, ind+"  ")
	case "any", "all":
		fmt.Fprintf(b, "%s%s:\n%s  parentJsonpathAttribute: %s\n", ind, strings.ToUpper(c.K), ind, q(parentText(c.Parent)))
		retYaml(b, ind+"  ", c.Ret)
		fmt.Fprintf(b, "%s  condition:\n", ind)
		c.Subs[0].yaml(b, ind+"    ")
	default:
		fmt.Fprintf(b, "%sattribute: %s\n%smethod: %s\n", ind, q(c.Attr), ind, q(c.Method))
		if m := strings.ToUpper(c.Method); m != "EX" && m != "NEX" || c.Value != "" {
			fmt.Fprintf(b, "%svalue: %s\n", ind, q(c.Value))
		}
		retYaml(b, ind, c.Ret)
	}
}

func parentText(p string) string {
	parts := strings.Split(p, ",")
	for i := range parts {
		parts[i] = "jsonpath:" + parts[i]
	}
	return strings.Join(parts, ",")
}

func retYaml(b *strings.Builder, ind string, ret map[string]string) {
	if len(ret) == 0 {
		return
	}
	fmt.Fprintf(b, "%sreturnValueJsonpath:\n", ind)
	for _, k := range sortedKeys(ret) {
		fmt.Fprintf(b, "%s  %s: %s\n", ind, q(k), q("jsonpath:"+ret[k]))
	}
}

func sortedKeys(m map[string]string) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func rulesYaml(rs []MRule) string {
	var b strings.Builder
	b.WriteString("rules:\n")
	for i := range rs {
		r := &rs[i]
		fmt.Fprintf(&b, "  - ruleID: %s\n    sender:\n      senderName: %s\n      senderType: %s\n", q(r.ID), q(r.Sender), q(r.SType))
		fmt.Fprintf(&b, "    receiver:\n      receiverName: %s\n      receiverType: %s\n", q(r.Receiver), q(r.RType))
		fmt.Fprintf(&b, "    protocol: %s\n    resource:\n      resourceType: %s\n      resourceName: %s\n    operation: %s\n", q(r.Proto), q(r.ResType), q(r.ResName), q(r.Op))
		if r.Cond != nil {
			b.WriteString("    conditions:\n")
			r.Cond.yaml(&b, "      ")
		}
		fmt.Fprintf(&b, "    decision: %s\n", q(r.Decision))
		if r.Desc != "" {
			fmt.Fprintf(&b, "    metadata:\n      description: %s\n", q(r.Desc))
			if len(r.Desc)%3 == 0 {
				fmt.Fprintf(&b, "      name: %s\n      severity: \"3\"\n", q(r.Receiver))
			}
		}
	}
	return b.String()
}

func (l *MLists) yaml() string {
	var b strings.Builder
	b.WriteString("predefinedStrings:\n")
	for _, k := range sortedKeys(l.Strings) {
		fmt.Fprintf(&b, "  %s: %s\n", k, q(l.Strings[k]))
	}
	b.WriteString("predefinedLists:\n")
	ks := []string{}
	for k := range l.Lists {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "  %s:\n", k)
		for _, v := range l.Lists[k] {
			fmt.Fprintf(&b, "    - %s\n", q(v))
		}
	}
	return b.String()
}

func (m *MMsg) time() string {
	if m.TZ != "" {
		return "2018-07-29T" + m.Time + m.TZ
	}
	return "2018-07-29T" + m.Time + "Z"
}

func (m *MMsg) yaml() string {
	var b strings.Builder
	f := func(k, v string) {
		if v != "" {
			fmt.Fprintf(&b, "    %s: %s\n", k, q(v))
		}
	}
	fmt.Fprintf(&b, "  - message_id: %s\n", q(m.ID))
	f("sender_service", m.Src)
	f("receiver_service", m.Dst)
	f("request_host", m.Host)
	f("sender_ip", m.SrcIP)
	f("receiver_ip", m.DstIP)
	f("receiver_port", m.Port)
	f("request_protocol", m.Proto)
	f("request_path", m.Path)
	f("request_method", m.Method)
	f("request_user_agent", m.Agent)
	f("sender_namespace", m.SrcNs)
	f("receiver_namespace", m.DstNs)
	f("sender_cluster", m.SrcCl)
	f("receiver_cluster", m.DstCl)
	f("encryption_type", m.EncType)
	f("domain", m.Domain)
	f("request_time", m.time())
	f("sender_labels", labelText(m.SrcLab))
	f("receiver_labels", labelText(m.DstLab))
	if m.Size != 0 {
		fmt.Fprintf(&b, "    request_size: %d\n", m.Size)
	}
	if m.EncVer != nil {
		fmt.Fprintf(&b, "    encryption_version: %v\n", *m.EncVer)
	}
	return b.String()
}

func labelText(l map[string]string) string {
	if l == nil {
		return ""
	}
	parts := []string{}
	for _, k := range sortedKeys(l) {
		parts = append(parts, k+":"+l[k])
	}
	return "{" + strings.Join(parts, ",") + "}"
}

func msgsYaml(ms []MMsg) string {
	var b strings.Builder
	b.WriteString("messages:\n")
	for i := range ms {
		b.WriteString(ms[i].yaml())
	}
	return b.String()
}
