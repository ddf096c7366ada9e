package c13

import (
	"errors"
	"fmt"
	"net"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/renthraysk/xtorm/netx/connector"
	"github.com/renthraysk/xtorm/netx/connector/authentication"

	"xtverif/gen"
	"xtverif/hx"
)

// What a connector was made with.
func TestOptions(t *testing.T) {
	hx.Check(t, 8000, 100000, "connectors made with any network and address and 0 to 8 options in any order, the same ones repeatedly, some failing; each must report what it was given last, or fail with the first failing option's error; two connectors must not share anything; non-trivial: 2 or more options", func(t *rapid.T, c *hx.Case) {
		g := gen.New(t, false)
		type want struct {
			network, address, user, password, db string
			err                                  error
			cn                                   *connector.Connector
		}
		var all []want
		var desc []string
		options := 0
		for k := 0; k < 2; k++ {
			w := want{network: g.Name("network"), address: g.Name("address")}
			var opts []connector.Option
			for i, n := 0, g.Int(0, 8, "options"); i < n; i++ {
				options++
				switch g.Pick(9, "option") {
				case 0, 1, 2, 3:
					u, p := g.Name("user"), g.Name("password")
					opts = append(opts, connector.WithUserPassword(u, p))
					desc = append(desc, "user")
					if w.err == nil {
						w.user, w.password = u, p
					}
				case 4, 5, 6:
					d := g.Name("db")
					opts = append(opts, connector.WithDatabase(d))
					desc = append(desc, "database")
					if w.err == nil {
						w.db = d
					}
				case 7:
					opts = append(opts, connector.WithTLSConfig(nil))
					desc = append(desc, "no TLS")
				case 8:
					err := fmt.Errorf("option %d", i)
					opts = append(opts, func(*connector.Connector) error { return err })
					desc = append(desc, "failing")
					if w.err == nil {
						w.err = err
					}
				}
			}
			desc = append(desc, ";")
			cn, err := connector.New(w.network, w.address, opts...)
			w.cn = cn
			all = append(all, w)
			if w.err != nil {
				c.Class("failing option")
				if cn != nil || !errors.Is(err, w.err) {
					t.Fatalf("%v: an option failed with %v, New gives %v, %v", desc, w.err, cn, err)
				}
				continue
			}
			if err != nil || cn == nil {
				t.Fatalf("%v: New gives %v, %v", desc, cn, err)
			}
		}
		for k, w := range all {
			if w.err != nil {
				continue
			}
			var a net.Addr = w.cn
			var cr authentication.Credentials = w.cn
			for _, x := range [][3]string{{"network", a.Network(), w.network}, {"address", a.String(), w.address}, {"user", cr.UserName(), w.user}, {"password", cr.Password(), w.password}, {"database", cr.Database(), w.db}} {
				if x[1] != x[2] {
					t.Fatalf("%v: connector %d: %s is %q, was given %q", desc, k, x[0], x[1], x[2])
				}
			}
		}
		if options >= 2 {
			key := fmt.Sprintf("%s %q %q %q", strings.Join(desc, " "), all[0].network, all[0].user, all[1].db)
			c.NonTrivial(key)
			c.Sample(func() string { return key })
		}
	})
}
