package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/blnkfinance/blnk/internal/tokenization"
	"github.com/blnkfinance/blnk/internal/zzsim/pgsim"
)

// ---------------------------------------------------------------- P29 tokenized identities

const tokenSecret = "sim-tokenization-secret-32-bytes"

// tokenFields maps the tokenizable fields to their columns, tokenOthers the other fields to theirs.
var (
	tokenFields = [][2]string{{"FirstName", "first_name"}, {"LastName", "last_name"}, {"OtherNames", "other_names"}, {"EmailAddress", "email_address"}, {"PhoneNumber", "phone_number"}, {"Street", "street"}, {"PostCode", "post_code"}}
	tokenOthers = []string{"city", "state", "country", "nationality", "category"}
)

type tokenOp struct {
	kind, id string // tokenize, put, meta, value (one field), values (all fields), marks, get
	fields   []string
	vals     map[string]string
	q        *Req
}

type tokenRun struct {
	ids   []string
	plain map[string]string // by id/field
	ops   []*tokenOp
	svc   *tokenization.TokenizationService
}

func (r *MixRun) setupTokens() {
	x := &tokenRun{plain: map[string]string{}, svc: tokenization.NewTokenizationService([]byte(tokenSecret))}
	r.x = x
	s := r.Sim
	s.Setup(func(c *Client) {
		for i := 0; i < 2; i++ {
			b := identityBody()
			for _, f := range tokenFields {
				v := r.randomValue()
				switch f[0] {
				case "EmailAddress":
					v = fmt.Sprintf("ada%d@b.example", i)
				case "PhoneNumber":
					v = fmt.Sprintf("+234801234567%d", i)
				}
				b[f[1]] = v
			}
			if i == 0 {
				b["meta_data"] = map[string]any{"first": "1"}
			}
			id := c.Must("POST", "/identities", b).S("identity_id")
			x.ids = append(x.ids, id)
			for _, f := range tokenFields {
				x.plain[id+"/"+f[0]] = b[f[1]].(string)
			}
		}
	})
	s.onCommit = append(s.onCommit, func(owner string, ch []pgsim.Change) {
		for _, c := range ch {
			if c.Table.Name() == "identity" && c.New != nil {
				r.checkTokenRow(Row{c.Table, c.New}, fmt.Sprintf("after commit #%d by %s", s.Eng.Seq(), owner))
			}
		}
	})
}

// randomValue is a field's plain value: of any length, with any characters.
func (r *MixRun) randomValue() string {
	parts := []string{"Ada", "x", "12", " ", "-", "É", "ß", "名前", "🔑", ":", "::", "FPT:", "=", "/", "'", "\"", "\\", "%s", "{}", "\u200d", "aGVsbG8="}
	v := ""
	for i, n := 0, r.C.N("op", 8); i < n; i++ {
		v += parts[r.C.N("op", len(parts))]
	}
	return v
}

// tokenMarks are the fields marked as tokenized in metadata.
func tokenMarks(m map[string]any) map[string]bool {
	t, _ := m["tokenized_fields"].(map[string]any)
	out := map[string]bool{}
	for k, v := range t {
		if b, _ := v.(bool); b {
			out[k] = true
		}
	}
	return out
}

// checkTokenRow judges an identity as stored: marks and tokens agree, and every token gives
// the original value.
func (r *MixRun) checkTokenRow(row Row, when string) {
	x := r.x.(*tokenRun)
	id := row.S("identity_id")
	marks := tokenMarks(row.M("meta_data"))
	for _, f := range tokenFields {
		want, known := x.plain[id+"/"+f[0]]
		if !known {
			continue
		}
		v := row.S(f[1])
		if v == "" && want == "" {
			continue // an empty field written back by an update stays as it was
		}
		if !marks[f[0]] {
			if v != want {
				r.Violate("P29", "a token without its mark", "%s identity %s has %s = %q (originally %q), not marked as tokenized: %v", when, id, f[1], v, want, marks)
			}
			continue
		}
		if v == want {
			r.Violate("P29", "a field marked as tokenized holds its plain value", "%s identity %s has %s = %q, marked as tokenized", when, id, f[1], v)
			continue
		}
		got, err := x.svc.Detokenize(v)
		if err != nil || got != want {
			r.Violate("P29", "a token does not give the original value", "%s identity %s has %s = %q, which gives %q (%v), not %q", when, id, f[1], v, got, err, want)
		}
	}
}

func tokenOpOf(r *MixRun, c *Client) {
	x := r.x.(*tokenRun)
	r.n++
	id := x.ids[r.C.W("op", 3, 1)]
	o := &tokenOp{id: id, vals: map[string]string{}}
	field := func() string {
		f := tokenFields[r.C.N("op", len(tokenFields))][0]
		if r.C.N("op", 2) == 0 {
			f = strings.ToLower(f[:1]) + f[1:]
		}
		return f
	}
	switch r.C.W("op", 6, 3, 3, 3, 3, 2, 2, 2) {
	case 0:
		o.kind, o.fields = "tokenize", []string{field()}
		o.q = c.Do("POST", "/identities/"+id+"/tokenize/"+o.fields[0], nil)
	case 1:
		o.kind = "tokenize"
		for i, n := 0, 1+r.C.N("op", 3); i < n; i++ {
			o.fields = append(o.fields, field())
		}
		o.q = c.Do("POST", "/identities/"+id+"/tokenize", map[string]any{"fields": o.fields})
	case 2:
		o.kind = "put"
		b := map[string]any{}
		for i, n := 0, 1+r.C.N("op", 2); i < n; i++ {
			f := tokenOthers[r.C.N("op", len(tokenOthers))]
			o.vals[f] = fmt.Sprintf("%s%d", f, r.n)
			b[f] = o.vals[f]
		}
		o.q = c.Do("PUT", "/identities/"+id, b)
	case 3:
		o.kind = "meta"
		k := fmt.Sprintf("own%d", r.n)
		o.vals[k] = "v"
		o.q = c.Do("POST", "/"+id+"/metadata", map[string]any{"meta_data": map[string]any{k: "v"}})
	case 4:
		o.kind, o.fields = "value", []string{field()}
		o.q = c.Do("GET", "/identities/"+id+"/detokenize/"+o.fields[0], nil)
	case 5:
		o.kind = "values"
		o.q = c.Do("POST", "/identities/"+id+"/detokenize", map[string]any{"fields": []string{}})
	case 6:
		o.kind = "marks"
		o.q = c.Do("GET", "/identities/"+id+"/tokenized-fields", nil)
	default:
		o.kind = "get"
		o.q = c.Do("GET", "/identities/"+id, nil)
	}
	x.ops = append(x.ops, o)
}

func structField(f string) string { return strings.ToUpper(f[:1]) + f[1:] }

// before tells whether a was answered before b was sent.
func before(a, b *Req) bool {
	return a.Status != 0 && a.RetTick < b.InvTick
}

func (r *MixRun) checkTokens() {
	x := r.x.(*tokenRun)
	sort.SliceStable(x.ops, func(i, j int) bool { return x.ops[i].q.N < x.ops[j].q.N })
	// tokenized says whether a field was tokenized for certain before q was sent (sure), and
	// whether it may have been by the time q was answered (may).
	tokenized := func(id, f string, q *Req) (by *Req, may bool) {
		for _, o := range x.ops {
			if o.kind != "tokenize" || o.id != id {
				continue
			}
			for i, g := range o.fields {
				if structField(g) != f {
					continue
				}
				if q == nil || o.q.InvTick < q.RetTick {
					may = true
				}
				_ = i
				if o.q.OK() && (q == nil || before(o.q, q)) {
					by = o.q
				}
			}
		}
		return
	}
	acks := map[string]*Req{}
	for _, o := range x.ops {
		switch {
		case o.kind == "tokenize" && o.q.OK():
			for _, f := range o.fields {
				k := o.id + "/" + structField(f)
				if p := acks[k]; p != nil {
					r.Violate("P29", "a field was tokenized twice", "%s of %s: %s and %s were both acknowledged", f, o.id, p, o.q)
				}
				acks[k] = o.q
				r.Count["fields_tokenized"]++
			}
		case o.kind == "tokenize" && o.q.Status == 409 && len(o.fields) == 1:
			if _, may := tokenizedBefore(x, o); !may {
				r.Violate("P29", "a field nobody tokenized is reported as tokenized", "%s", o.q)
			}
		case o.kind == "value":
			f := structField(o.fields[0])
			by, may := tokenized(o.id, f, o.q)
			if o.q.OK() {
				r.Count["values_read"]++
				if !may {
					r.Violate("P29", "a value nobody tokenized was detokenized", "%s", o.q)
				}
				if v := o.q.S("value"); v != x.plain[o.id+"/"+f] {
					r.Violate("P29", "detokenization gives another value", "%s: %q, not %q", o.q, v, x.plain[o.id+"/"+f])
				}
			} else if by != nil && o.q.Status >= 400 && o.q.Status < 500 {
				r.Violate("P29", "a tokenized field cannot be detokenized", "%s, though %s was acknowledged", o.q, by)
			}
		case o.kind == "values" && o.q.OK():
			m, _ := o.q.JSON["fields"].(map[string]any)
			for _, f := range tokenFields {
				v, in := m[f[0]]
				by, may := tokenized(o.id, f[0], o.q)
				if in && (!may || v != x.plain[o.id+"/"+f[0]]) {
					r.Violate("P29", "detokenization gives another value", "%s: %s = %q, not %q", o.q, f[0], v, x.plain[o.id+"/"+f[0]])
				}
				if !in && by != nil {
					r.Violate("P29", "a tokenized field is missing among the detokenized", "%s: no %s, though %s was acknowledged", o.q, f[0], by)
				}
			}
		case o.kind == "values" && o.q.Status >= 400 && o.q.Status < 500:
			r.Violate("P29", "the tokenized fields cannot be detokenized", "%s", o.q)
		case o.kind == "marks" && o.q.OK():
			l, _ := o.q.JSON["tokenized_fields"].([]any)
			got := map[string]bool{}
			for _, f := range l {
				got[str(f)] = true
			}
			for _, f := range tokenFields {
				by, may := tokenized(o.id, f[0], o.q)
				if got[f[0]] && !may || !got[f[0]] && by != nil {
					r.Violate("P29", "the list of tokenized fields is wrong", "%s: %s listed: %v, tokenized by %v", o.q, f[0], got[f[0]], by)
				}
			}
		case o.kind == "get" && o.q.OK():
			for _, f := range tokenFields {
				by, may := tokenized(o.id, f[0], o.q)
				v, want := o.q.S(f[1]), x.plain[o.id+"/"+f[0]]
				if by != nil && v == want && v != "" {
					r.Violate("P29", "a tokenized field is shown", "%s: %s = %q, though %s was acknowledged", o.q, f[1], v, by)
				}
				if !may && v != want {
					r.Violate("P29", "a field nobody tokenized has changed", "%s: %s = %q, not %q", o.q, f[1], v, want)
				}
			}
			m, _ := o.q.JSON["meta_data"].(map[string]any)
			r.tokenUpdates(o.id, func(f string) string { return o.q.S(f) }, m, o.q)
		}
	}
	for _, id := range x.ids {
		row, ok := r.One("identity", "identity_id", id)
		if !ok {
			continue
		}
		r.Count["identities_checked"]++
		r.checkTokenRow(row, "at the end")
		marks := tokenMarks(row.M("meta_data"))
		for _, f := range tokenFields {
			if by, _ := tokenized(id, f[0], nil); by != nil && !marks[f[0]] {
				r.Violate("P29", "an acknowledged tokenization is lost", "%s of %s is not tokenized at the end, though %s was acknowledged", f[0], id, by)
			}
		}
		r.tokenUpdates(id, row.S, row.M("meta_data"), nil)
	}
}

// tokenizedBefore says whether another request may have tokenized the field before o was answered.
func tokenizedBefore(x *tokenRun, o *tokenOp) (*Req, bool) {
	for _, p := range x.ops {
		if p == o || p.kind != "tokenize" || p.id != o.id || p.q.InvTick > o.q.RetTick {
			continue
		}
		for _, f := range p.fields {
			if structField(f) == structField(o.fields[0]) {
				return p.q, true
			}
		}
	}
	return nil, false
}

// tokenUpdates checks that no acknowledged update of other fields or metadata is missing in
// what q read (nil: at the end).
func (r *MixRun) tokenUpdates(id string, get func(string) string, m map[string]any, q *Req) {
	x := r.x.(*tokenRun)
	seen := func(u *Req) bool { return u.OK() && (q == nil || before(u, q)) }
	for _, o := range x.ops {
		if o.id != id {
			continue
		}
		switch o.kind {
		case "meta":
			for k, v := range o.vals {
				if seen(o.q) && str(m[k]) != v {
					r.Violate("P29", "an acknowledged metadata update is lost", "%v: key %s of %s by %s is missing in %v", q, k, id, o.q, m)
				}
			}
		case "put":
			if !seen(o.q) {
				continue
			}
			for _, f := range tokenOthers {
				want := o.vals[f]
				if want == "" || get(f) == want {
					continue
				}
				var by *tokenOp
				for _, p := range x.ops {
					if p.kind == "put" && p.id == id && p.vals[f] != "" && p.vals[f] == get(f) {
						by = p
					}
				}
				if by == nil || before(by.q, o.q) {
					r.Violate("P29", "an acknowledged update of another field is lost", "%v: %s of %s is %q, though %s set %q", q, f, id, get(f), o.q, want)
				}
			}
		}
	}
}
