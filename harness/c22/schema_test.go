package c22

import (
	"embed"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// The protocol's definition, as published with the server (comments removed), and a reader
// for the part of the language it uses.

//go:embed proto/*.proto
var files embed.FS

type field struct {
	name, label, typ string
	num              int
	def              string // default, "" if none
	msg              *message
	enum             *enum
}

type enum struct {
	name  string
	names []string
	nums  map[string]int32
}

type message struct {
	name           string
	fields         []*field
	client, server string // message id options
}

func (m *message) byNum(n int) *field {
	for _, f := range m.fields {
		if f.num == n {
			return f
		}
	}
	return nil
}

type schema struct {
	msgs  map[string]*message
	enums map[string]*enum
	names []string // of messages, sorted
}

var token = regexp.MustCompile(`"[^"]*"|[\w.]+|[^\s\w]`)

func load() *schema {
	s := &schema{msgs: map[string]*message{}, enums: map[string]*enum{}}
	entries, err := files.ReadDir("proto")
	if err != nil {
		panic(err)
	}
	scopes := map[*field]string{}
	for _, e := range entries {
		b, err := files.ReadFile("proto/" + e.Name())
		if err != nil {
			panic(err)
		}
		t := token.FindAllString(string(b), -1)
		pkg := ""
		for i := 0; i < len(t); {
			switch t[i] {
			case "package":
				pkg = t[i+1]
				i += 3
			case "message", "enum", "extend":
				i = s.block(t, i, pkg, scopes)
			default: // syntax, import
				for t[i] != ";" {
					i++
				}
				i++
			}
		}
	}
	for f, scope := range scopes {
		for sc := scope; ; {
			full := strings.TrimPrefix(sc+"."+f.typ, ".")
			if m := s.msgs[full]; m != nil {
				f.msg = m
				break
			}
			if e := s.enums[full]; e != nil {
				f.enum = e
				break
			}
			if sc == "" {
				break
			}
			if k := strings.LastIndex(sc, "."); k >= 0 {
				sc = sc[:k]
			} else {
				sc = ""
			}
		}
	}
	for n, m := range s.msgs {
		s.names = append(s.names, n)
		sort.Slice(m.fields, func(i, j int) bool { return m.fields[i].num < m.fields[j].num })
	}
	sort.Strings(s.names)
	return s
}

func (s *schema) block(t []string, i int, scope string, scopes map[*field]string) int {
	kind, name := t[i], t[i+1]
	full := scope + "." + name
	i += 3
	if kind == "enum" {
		e := &enum{name: full, nums: map[string]int32{}}
		s.enums[full] = e
		for t[i] != "}" {
			n, err := strconv.Atoi(t[i+2])
			if err != nil {
				panic(err)
			}
			e.names = append(e.names, t[i])
			e.nums[t[i]] = int32(n)
			i += 4
		}
		return i + 1
	}
	m := &message{name: full}
	if kind == "message" {
		s.msgs[full] = m
	}
	for t[i] != "}" {
		switch t[i] {
		case "message", "enum":
			i = s.block(t, i, full, scopes)
		case "option": // option ( client_message_id ) = X ;
			if t[i+2] == "client_message_id" {
				m.client = t[i+5]
			} else {
				m.server = t[i+5]
			}
			i += 7
		case "required", "optional", "repeated":
			n, err := strconv.Atoi(t[i+4])
			if err != nil {
				panic(err)
			}
			f := &field{label: t[i], typ: t[i+1], name: t[i+2], num: n}
			i += 5
			if t[i] == "[" {
				f.def = strings.Trim(t[i+3], `"`)
				i += 5
			}
			i++
			m.fields = append(m.fields, f)
			if kind == "message" {
				scopes[f] = full
			}
		default:
			panic(fmt.Sprint("definition: unexpected ", t[i]))
		}
	}
	return i + 1
}

// goName is the name protobuf's bindings for Go give to a field.
func goName(s string) string {
	var b strings.Builder
	for _, w := range strings.Split(s, "_") {
		b.WriteString(strings.ToUpper(w[:1]) + w[1:])
	}
	return b.String()
}
