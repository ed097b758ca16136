package pgsim

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/lib/pq"
	"github.com/shopspring/decimal"
)

// Runtime values: nil, int64, float64, Num, string (text/varchar), Bp (char(n)),
// Unk (literal or parameter of unknown type), bool, Ts, Json, Arr, Ival, []byte.
type (
	Unk string
	Bp  string
	Num struct{ d decimal.Decimal }
	Ts  struct {
		t    time.Time
		kind byte // 's' timestamp, 'z' timestamptz, 'd' date
	}
	Ival struct {
		months, days int
		d            time.Duration
	}
	Json struct{ v any } // map[string]any, []any, string, json.Number, bool, nil
	Arr  []any
)

func pgErr(code, msg string, a ...any) *pq.Error {
	return &pq.Error{Severity: "ERROR", Code: pq.ErrorCode(code), Message: fmt.Sprintf(msg, a...)}
}

// Unsupported marks a limit of the simulated database: a machinery error, never a verdict.
type Unsupported struct{ msg string }

func (u Unsupported) Error() string  { return "pgsim: unsupported: " + u.msg }
func unsup(f string, a ...any) error { return Unsupported{fmt.Sprintf(f, a...)} }

func parseNum(s string) (Num, error) {
	d, err := decimal.NewFromString(strings.TrimSpace(s))
	if err != nil {
		return Num{}, pgErr("22P02", "invalid input syntax for type numeric: %q", s)
	}
	return Num{d}, nil
}

func (n Num) String() string {
	if e := n.d.Exponent(); e < 0 {
		return n.d.StringFixed(-e)
	}
	return n.d.StringFixed(0)
}

func parseJSON(s string) (Json, error) {
	dec := json.NewDecoder(strings.NewReader(s))
	dec.UseNumber()
	var v any
	if err := dec.Decode(&v); err != nil {
		return Json{}, pgErr("22P02", "invalid input syntax for type json")
	}
	if dec.More() {
		return Json{}, pgErr("22P02", "invalid input syntax for type json")
	}
	return Json{v}, nil
}

func jsonKeys(m map[string]any) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if len(ks[i]) != len(ks[j]) {
			return len(ks[i]) < len(ks[j])
		}
		return ks[i] < ks[j]
	})
	return ks
}

func writeJSON(b *bytes.Buffer, v any) {
	switch x := v.(type) {
	case nil:
		b.WriteString("null")
	case bool:
		b.WriteString(strconv.FormatBool(x))
	case json.Number:
		s := x.String()
		if strings.ContainsAny(s, "eE") {
			if n, err := parseNum(s); err == nil {
				s = n.String()
			}
		}
		b.WriteString(s)
	case string:
		var t bytes.Buffer
		enc := json.NewEncoder(&t)
		enc.SetEscapeHTML(false)
		enc.Encode(x)
		b.Write(bytes.TrimRight(t.Bytes(), "\n"))
	case []any:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteString(", ")
			}
			writeJSON(b, e)
		}
		b.WriteByte(']')
	case map[string]any:
		b.WriteByte('{')
		for i, k := range jsonKeys(x) {
			if i > 0 {
				b.WriteString(", ")
			}
			writeJSON(b, k)
			b.WriteString(": ")
			writeJSON(b, x[k])
		}
		b.WriteByte('}')
	default:
		panic(unsup("json value %T", v))
	}
}
func (j Json) String() string { var b bytes.Buffer; writeJSON(&b, j.v); return b.String() }

func toJSONVal(v any) any {
	switch x := v.(type) {
	case nil:
		return nil
	case int64:
		return json.Number(strconv.FormatInt(x, 10))
	case float64:
		return json.Number(strconv.FormatFloat(x, 'f', -1, 64))
	case Num:
		return json.Number(x.String())
	case bool:
		return x
	case Json:
		return x.v
	case Ts:
		return strings.Replace(x.text(), " ", "T", 1)
	case Arr:
		out := make([]any, len(x))
		for i := range x {
			out[i] = toJSONVal(x[i])
		}
		return out
	default:
		return textOf(v)
	}
}

func (t Ts) text() string {
	switch t.kind {
	case 'd':
		return t.t.Format("2006-01-02")
	case 'z':
		return t.t.UTC().Format("2006-01-02 15:04:05.999999") + "+00"
	}
	return t.t.Format("2006-01-02 15:04:05.999999")
}

func ivalText(i Ival) string {
	return fmt.Sprintf("%d mons %d days %s", i.months, i.days, i.d)
}

func textOf(v any) string {
	switch x := v.(type) {
	case nil:
		return ""
	case string:
		return x
	case Unk:
		return string(x)
	case Bp:
		return strings.TrimRight(string(x), " ")
	case int64:
		return strconv.FormatInt(x, 10)
	case float64:
		if math.IsInf(x, 0) || math.IsNaN(x) {
			return strconv.FormatFloat(x, 'g', -1, 64)
		}
		if a := math.Abs(x); a != 0 && (a >= 1e15 || a < 1e-4) {
			return strconv.FormatFloat(x, 'g', -1, 64)
		}
		return strconv.FormatFloat(x, 'f', -1, 64)
	case Num:
		return x.String()
	case bool:
		if x {
			return "true"
		}
		return "false"
	case Ts:
		return x.text()
	case Json:
		return x.String()
	case Ival:
		return ivalText(x)
	case Arr:
		var b strings.Builder
		b.WriteByte('{')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			if e == nil {
				b.WriteString("NULL")
				continue
			}
			s := textOf(e)
			if s == "" || strings.ContainsAny(s, "{},\"\\ \t\n") || strings.EqualFold(s, "null") {
				b.WriteByte('"')
				b.WriteString(strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s))
				b.WriteByte('"')
			} else {
				b.WriteString(s)
			}
		}
		b.WriteByte('}')
		return b.String()
	case []byte:
		return "\\x" + hex.EncodeToString(x)
	}
	panic(unsup("text of %T", v))
}

func parseTs(s string, kind byte) (Ts, error) {
	s = strings.TrimSpace(s)
	low := strings.ToLower(s)
	if strings.HasSuffix(low, " bc") || low == "infinity" || low == "-infinity" {
		return Ts{}, unsup("timestamp %q", s)
	}
	for _, f := range []string{"2006-01-02 15:04:05.999999999Z07:00:00", "2006-01-02 15:04:05.999999999Z07:00", "2006-01-02T15:04:05.999999999Z07:00", "2006-01-02 15:04:05.999999999-07", "2006-01-02 15:04:05.999999999 -0700 MST", "2006-01-02 15:04:05.999999999", "2006-01-02T15:04:05.999999999", "2006-01-02 15:04", "2006-01-02T15:04", "2006-01-02", "0001-01-02 15:04:05.999999999Z07:00:00"} {
		t, err := time.Parse(f, s)
		if err != nil {
			continue
		}
		switch kind {
		case 'z':
			t = t.UTC()
		default: // the zone of a literal for timestamp without time zone is ignored
			t = time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), time.UTC)
		}
		t = t.Round(time.Microsecond)
		if kind == 'd' {
			t = time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC)
		}
		return Ts{t, kind}, nil
	}
	return Ts{}, pgErr("22007", "invalid input syntax for type timestamp: %q", s)
}

func parseIval(s string) (Ival, error) {
	var iv Ival
	t := strings.TrimSpace(s)
	// Postgres accepts "1h30m", "30s", "1 day 02:03:04"
	i := 0
	for i < len(t) {
		for i < len(t) && (t[i] == ' ' || t[i] == ',') {
			i++
		}
		if i >= len(t) {
			break
		}
		j := i
		for j < len(t) && (t[j] >= '0' && t[j] <= '9' || t[j] == '.' || t[j] == '-' || t[j] == '+') {
			j++
		}
		if j == i {
			return iv, pgErr("22007", "invalid input syntax for type interval: %q", s)
		}
		if j < len(t) && t[j] == ':' {
			var h, m int
			var sec float64
			if n, _ := fmt.Sscanf(t[i:], "%d:%d:%f", &h, &m, &sec); n < 2 {
				return iv, pgErr("22007", "invalid interval %q", s)
			}
			iv.d += time.Duration(h)*time.Hour + time.Duration(m)*time.Minute + time.Duration(sec*1e9)
			for i = j; i < len(t) && t[i] != ' '; i++ {
			}
			continue
		}
		f, err := strconv.ParseFloat(t[i:j], 64)
		if err != nil {
			return iv, pgErr("22007", "invalid interval %q", s)
		}
		for j < len(t) && t[j] == ' ' {
			j++
		}
		k := j
		for k < len(t) && (t[k] >= 'a' && t[k] <= 'z' || t[k] >= 'A' && t[k] <= 'Z' || t[k] >= 0x80) {
			k++
		}
		u := strings.ToLower(t[j:k])
		mul := func(d time.Duration) { iv.d += time.Duration(f * float64(d)) }
		switch u {
		case "us", "usec", "µs", "microsecond", "microseconds":
			mul(time.Microsecond)
		case "ms", "msec", "millisecond", "milliseconds":
			mul(time.Millisecond)
		case "", "s", "sec", "secs", "second", "seconds":
			mul(time.Second)
		case "m", "min", "mins", "minute", "minutes":
			mul(time.Minute)
		case "h", "hr", "hrs", "hour", "hours":
			mul(time.Hour)
		case "d", "day", "days":
			iv.days += int(f)
		case "w", "week", "weeks":
			iv.days += int(7 * f)
		case "mon", "mons", "month", "months":
			iv.months += int(f)
		case "y", "year", "years":
			iv.months += int(12 * f)
		default:
			return iv, pgErr("22007", "invalid interval %q", s)
		}
		i = k
	}
	return iv, nil
}

func parseArr(s string) (Arr, error) {
	if len(s) < 2 || s[0] != '{' || s[len(s)-1] != '}' {
		return nil, pgErr("22P02", "malformed array literal: %q", s)
	}
	out := Arr{}
	i := 1
	for i < len(s)-1 {
		if s[i] == ',' {
			i++
			continue
		}
		if s[i] == '"' {
			var b strings.Builder
			i++
			for i < len(s)-1 && s[i] != '"' {
				if s[i] == '\\' {
					i++
				}
				b.WriteByte(s[i])
				i++
			}
			i++
			out = append(out, b.String())
			continue
		}
		j := i
		for j < len(s)-1 && s[j] != ',' {
			j++
		}
		w := s[i:j]
		if strings.EqualFold(w, "null") {
			out = append(out, nil)
		} else {
			out = append(out, w)
		}
		i = j
	}
	return out, nil
}

// coerce converts v to type t (assignment / explicit cast rules).
func coerce(v any, t Type) (any, error) {
	if v == nil {
		return nil, nil
	}
	if t.arr {
		switch x := v.(type) {
		case Arr:
			out := make(Arr, len(x))
			for i := range x {
				e, err := coerce(x[i], Type{name: t.name})
				if err != nil {
					return nil, err
				}
				out[i] = e
			}
			return out, nil
		case Unk:
			a, err := parseArr(string(x))
			if err != nil {
				return nil, err
			}
			return coerce(a, t)
		case string:
			a, err := parseArr(x)
			if err != nil {
				return nil, err
			}
			return coerce(a, t)
		}
		return nil, pgErr("42804", "cannot cast %T to array", v)
	}
	if s, ok := v.(Unk); ok && t.name != "text" && t.name != "varchar" {
		v = string(s)
	}
	switch t.name {
	case "text", "varchar", "inet", "uuid", "time":
		s := textOf(v)
		if t.n > 0 && len([]rune(s)) > t.n {
			return nil, pgErr("22001", "value too long for type character varying(%d)", t.n)
		}
		return s, nil
	case "bpchar":
		s := textOf(v)
		if n := len([]rune(s)); n > t.n && t.n > 0 {
			if strings.TrimRight(s, " ") == s {
				return nil, pgErr("22001", "value too long for type character(%d)", t.n)
			}
		} else if n < t.n {
			s += strings.Repeat(" ", t.n-n)
		}
		return Bp(s), nil
	case "int4", "int8":
		var out int64
		switch x := v.(type) {
		case int64:
			out = x
		case float64:
			if math.Abs(x) > 9.2e18 || math.IsNaN(x) {
				return nil, pgErr("22003", "bigint out of range")
			}
			out = int64(math.RoundToEven(x))
		case Num:
			r := x.d.Round(0)
			if r.Abs().Cmp(decimal.NewFromBigInt(new(big.Int).SetUint64(1<<63-1), 0)) > 0 {
				return nil, pgErr("22003", "bigint out of range")
			}
			out = r.IntPart()
		case string:
			n, err := strconv.ParseInt(strings.TrimSpace(x), 10, 64)
			if err != nil {
				if _, e := parseNum(x); e == nil && !strings.ContainsAny(x, ".eE") {
					return nil, pgErr("22003", "value %q is out of range for type bigint", x)
				}
				return nil, pgErr("22P02", "invalid input syntax for type bigint: %q", x)
			}
			out = n
		case bool:
			if x {
				out = 1
			}
		case Json:
			n, ok := x.v.(json.Number)
			if !ok {
				return nil, pgErr("22023", "cannot cast jsonb to integer")
			}
			d, err := parseNum(n.String())
			if err != nil {
				return nil, err
			}
			out = d.d.Round(0).IntPart()
		default:
			return nil, pgErr("42846", "cannot cast %T to integer", v)
		}
		if t.name == "int4" && (out > math.MaxInt32 || out < math.MinInt32) {
			return nil, pgErr("22003", "integer out of range")
		}
		return out, nil
	case "float8":
		switch x := v.(type) {
		case int64:
			return float64(x), nil
		case float64:
			return x, nil
		case Num:
			f, _ := x.d.Float64()
			return f, nil
		case string:
			f, err := strconv.ParseFloat(strings.TrimSpace(x), 64)
			if err != nil {
				return nil, pgErr("22P02", "invalid input syntax for type double precision: %q", x)
			}
			return f, nil
		case Json:
			if n, ok := x.v.(json.Number); ok {
				return n.Float64()
			}
		}
	case "numeric":
		var n Num
		var err error
		switch x := v.(type) {
		case int64:
			n = Num{decimal.NewFromInt(x)}
		case float64:
			n, err = parseNum(strconv.FormatFloat(x, 'g', 15, 64))
		case Num:
			n = x
		case string:
			if strings.EqualFold(x, "nan") || strings.HasSuffix(strings.ToLower(x), "infinity") {
				return nil, unsup("numeric %s", x)
			}
			n, err = parseNum(x)
		case Json:
			k, ok := x.v.(json.Number)
			if !ok {
				return nil, pgErr("22023", "cannot cast jsonb to numeric")
			}
			n, err = parseNum(k.String())
		default:
			return nil, pgErr("42846", "cannot cast %T to numeric", v)
		}
		if err != nil {
			return nil, err
		}
		if t.n > 0 {
			n.d = n.d.Round(int32(t.p))
			if len(n.d.Abs().Truncate(0).String()) > t.n-t.p && n.d.Abs().Cmp(decimal.New(1, int32(t.n-t.p))) >= 0 {
				return nil, pgErr("22003", "numeric field overflow")
			}
			if -n.d.Exponent() != int32(t.p) {
				n.d, _ = decimal.NewFromString(n.d.StringFixed(int32(t.p)))
			}
		}
		return n, nil
	case "bool":
		switch x := v.(type) {
		case bool:
			return x, nil
		case int64:
			return x != 0, nil
		case Json:
			if b, ok := x.v.(bool); ok {
				return b, nil
			}
		case string:
			switch strings.ToLower(strings.TrimSpace(x)) {
			case "t", "true", "yes", "on", "1", "y":
				return true, nil
			case "f", "false", "no", "off", "0", "n":
				return false, nil
			}
			return nil, pgErr("22P02", "invalid input syntax for type boolean: %q", x)
		}
	case "timestamp", "timestamptz", "date":
		k := map[string]byte{"timestamp": 's', "timestamptz": 'z', "date": 'd'}[t.name]
		switch x := v.(type) {
		case Ts:
			tt := x.t
			if k == 'd' {
				tt = time.Date(tt.Year(), tt.Month(), tt.Day(), 0, 0, 0, 0, time.UTC)
			}
			return Ts{tt, k}, nil
		case string:
			return parseTs(x, k)
		}
	case "jsonb":
		switch x := v.(type) {
		case Json:
			return x, nil
		case string:
			return parseJSON(x)
		}
	case "interval":
		switch x := v.(type) {
		case Ival:
			return x, nil
		case string:
			return parseIval(x)
		}
	case "bytea":
		switch x := v.(type) {
		case []byte:
			return x, nil
		case string:
			return []byte(x), nil
		}
	}
	return nil, pgErr("42846", "cannot cast %T to %s", v, t.name)
}

func typeOfVal(v any) (Type, bool) {
	switch x := v.(type) {
	case string:
		return Type{name: "text"}, true
	case Bp:
		return Type{name: "text"}, true
	case int64:
		return Type{name: "int8"}, true
	case float64:
		return Type{name: "float8"}, true
	case Num:
		return Type{name: "numeric"}, true
	case bool:
		return Type{name: "bool"}, true
	case Json:
		return Type{name: "jsonb"}, true
	case Ival:
		return Type{name: "interval"}, true
	case Arr:
		if len(x) > 0 {
			if t, ok := typeOfVal(x[0]); ok {
				return Type{name: t.name, arr: true}, true
			}
		}
		return Type{name: "text", arr: true}, true
	case Ts:
		switch x.kind {
		case 'z':
			return Type{name: "timestamptz"}, true
		case 'd':
			return Type{name: "date"}, true
		}
		return Type{name: "timestamp"}, true
	}
	return Type{}, false
}

// unify makes a and b comparable.
func unify(a, b any) (any, any, error) {
	if ua, ok := a.(Unk); ok {
		if ub, ok := b.(Unk); ok {
			return string(ua), string(ub), nil
		}
		t, ok := typeOfVal(b)
		if !ok {
			return nil, nil, unsup("compare unknown with %T", b)
		}
		x, err := coerce(a, t)
		return x, b, err
	}
	if _, ok := b.(Unk); ok {
		y, x, err := unify(b, a)
		return x, y, err
	}
	switch x := a.(type) {
	case int64:
		switch b.(type) {
		case float64:
			return float64(x), b, nil
		case Num:
			return Num{decimal.NewFromInt(x)}, b, nil
		}
	case float64:
		switch y := b.(type) {
		case int64:
			return a, float64(y), nil
		case Num:
			f, _ := y.d.Float64()
			return a, f, nil
		}
	case Num:
		switch y := b.(type) {
		case int64:
			return a, Num{decimal.NewFromInt(y)}, nil
		case float64:
			f, _ := x.d.Float64()
			return f, b, nil
		}
	case Bp:
		return strings.TrimRight(string(x), " "), textOf(b), nil
	case string:
		if y, ok := b.(Bp); ok {
			return a, strings.TrimRight(string(y), " "), nil
		}
	}
	return a, b, nil
}

func compare(a, b any) (int, error) {
	a, b, err := unify(a, b)
	if err != nil {
		return 0, err
	}
	switch x := a.(type) {
	case int64:
		if y, ok := b.(int64); ok {
			return cmpOrd(x, y), nil
		}
	case float64:
		if y, ok := b.(float64); ok {
			return cmpOrd(x, y), nil
		}
	case Num:
		if y, ok := b.(Num); ok {
			return x.d.Cmp(y.d), nil
		}
	case string:
		if y, ok := b.(string); ok {
			return cmpOrd(x, y), nil
		}
	case bool:
		if y, ok := b.(bool); ok {
			if x == y {
				return 0, nil
			}
			if !x {
				return -1, nil
			}
			return 1, nil
		}
	case Ts:
		if y, ok := b.(Ts); ok {
			return x.t.Compare(y.t), nil
		}
	case Json:
		if y, ok := b.(Json); ok {
			return strings.Compare(x.String(), y.String()), nil
		}
	case Arr:
		if y, ok := b.(Arr); ok {
			for i := 0; i < len(x) && i < len(y); i++ {
				c, err := compare(x[i], y[i])
				if err != nil || c != 0 {
					return c, err
				}
			}
			return len(x) - len(y), nil
		}
	case Ival:
		if y, ok := b.(Ival); ok {
			f := func(i Ival) int64 {
				return int64(i.months)*30*24*int64(time.Hour) + int64(i.days)*24*int64(time.Hour) + int64(i.d)
			}
			return cmpOrd(f(x), f(y)), nil
		}
	}
	return 0, pgErr("42883", "operator does not exist: %T = %T", a, b)
}

func cmpOrd[T int64 | float64 | string](a, b T) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

// key renders a value for hashing (index keys, DISTINCT, GROUP BY).
func hashKey(v any) string {
	switch x := v.(type) {
	case nil:
		return "\x00n"
	case int64:
		return "#" + strconv.FormatInt(x, 10)
	case Num:
		return "#" + trimNum(x)
	case float64:
		return "#" + strconv.FormatFloat(x, 'f', -1, 64)
	case Bp:
		return "s" + strings.TrimRight(string(x), " ")
	case string:
		return "s" + x
	case Unk:
		return "s" + string(x)
	case Ts:
		return "t" + strconv.FormatInt(x.t.UnixNano(), 10)
	case bool:
		return "b" + strconv.FormatBool(x)
	default:
		return "x" + textOf(v)
	}
}
func trimNum(n Num) string { return n.d.String() }
