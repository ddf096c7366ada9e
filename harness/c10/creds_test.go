package c10

import (
	"github.com/renthraysk/xtorm/netx/connector/authentication"
	"github.com/renthraysk/xtorm/netx/connector/authentication/mysql41"
	"github.com/renthraysk/xtorm/netx/connector/authentication/plain"
	"github.com/renthraysk/xtorm/netx/connector/authentication/sha256"
)

var starters = []authentication.Starter{mysql41.New(), sha256.New(), plain.New()}

type creds struct{}

func (creds) UserName() string { return "user" }
func (creds) Password() string { return "secret" }
func (creds) Database() string { return "db" }
