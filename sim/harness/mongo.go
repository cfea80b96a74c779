package main

import (
	"errors"
	"strconv"
	"strings"
)

type bm = map[string]interface{}

// mongo is the reference translation of a prepared rule.
func (r *MRule) mongo(base string) (string, bool) {
	if r.Cond == nil {
		return "simple {}", true
	}
	q, pipe, err := r.Cond.mongo(base, "", 0)
	if err != nil {
		return "error", false
	}
	if len(pipe) == 0 {
		return "simple " + queryText(q), true
	}
	return "aggregate " + queryText(append(pipe, bm{"$match": q})), true
}

var errMongo = errors.New("not translatable")

func (c *MCond) mongo(base, parent string, depth int) (bm, []bm, error) {
	switch c.K {
	case "and", "or":
		qs, pipe := []bm{}, []bm{}
		for _, s := range c.Subs {
			q, p, err := s.mongo(base, "", depth)
			if err != nil {
				return nil, nil, err
			}
			qs = append(qs, q)
			pipe = append(pipe, p...)
		}
		return bm{"$" + c.K: qs}, pipe, nil
	case "not":
		q, p, err := c.Subs[0].mongo(base, "", depth)
		return bm{"$nor": []bm{q}}, p, err
	case "any", "all":
		text := parentText(c.Parent)
		if strings.HasPrefix(c.Parent, "$..") {
			return nil, nil, errMongo
		}
		if strings.HasSuffix(text, "[:]") || strings.HasSuffix(text, "[*]") {
			depth++
		}
		field := strings.Replace(text, "jsonpath:$.", base+".", 1)
		field = strings.Replace(field, "jsonpath:$RELATIVE.", "", 1)
		field = strings.NewReplacer("[:]", "", "[*]", "").Replace(field)
		if c.K == "all" {
			q, p, err := c.Subs[0].mongo(base, "", depth+1)
			if err != nil || len(p) != 0 {
				return nil, nil, errMongo
			}
			return bm{"$nor": []bm{{field: bm{"$elemMatch": bm{"$nor": []bm{q}}}}}}, p, nil
		}
		q, p, err := c.Subs[0].mongo(base, field, depth+1)
		if err != nil {
			return nil, nil, err
		}
		if len(p) == 0 {
			q = bm{field: bm{"$elemMatch": q}}
		}
		return q, p, nil
	}
	if !strings.HasPrefix(c.Attr, "jsonpath:") {
		return nil, nil, errMongo
	}
	path := strings.TrimPrefix(c.Attr, "jsonpath:")
	field := ""
	pipe := []bm{}
	switch {
	case strings.HasPrefix(path, "$RELATIVE."):
		field = strings.TrimPrefix(path, "$RELATIVE.")
	case strings.HasPrefix(path, "$VALUE"), strings.HasPrefix(path, "$KEY"):
		if depth >= 2 {
			return nil, nil, errMongo
		}
		added := "addedField." + parent
		pipe = append(pipe, bm{"$addFields": bm{added: bm{"$objectToArray": "$" + parent}}})
		if path == "$KEY" {
			field = added + ".k"
		} else {
			field = added + ".v" + strings.TrimPrefix(path, "$VALUE")
		}
	case strings.HasPrefix(path, "$."):
		field = strings.TrimPrefix(path, "$.")
		if base != "" {
			field = base + "." + field
		}
	}
	field = strings.NewReplacer("\"", "", "'", "", "[", ".", "]", "").Replace(field)
	for strings.Contains(field, "..") {
		field = strings.Replace(field, "..", ".", -1)
	}
	value := c.Value
	method := strings.ToUpper(c.Method)
	switch c.Method {
	case "IN", "NIN", "IS":
		value = "^" + strings.NewReplacer("[", "", "]", "", ",", "$|^").Replace(value) + "$"
		if c.Method == "NIN" {
			method = "NRE"
		} else {
			method = "RE"
		}
	}
	var v interface{} = value
	if f, err := strconv.ParseFloat(value, 64); err == nil {
		v = f
	}
	var q bm
	switch method {
	case "EQ", "GT", "LT":
		q = bm{field: bm{"$" + strings.ToLower(method): v}}
	case "NEQ", "NE":
		q = bm{field: bm{"$ne": v}}
	case "GE":
		q = bm{field: bm{"$gte": v}}
	case "LE":
		q = bm{field: bm{"$lte": v}}
	case "EX", "NEX":
		q = bm{field: bm{"$exists": method == "EX"}}
	case "RE":
		q = bm{field: bm{"$regex": value}}
	case "NRE":
		q = bm{"$and": []bm{{field: bm{"$not": bm{"$regex": value}}}, {field: bm{"$exists": true}}}}
	}
	return q, pipe, nil
}
