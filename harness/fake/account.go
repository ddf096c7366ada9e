package fake

import (
	"crypto/sha1"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"strings"
)

// Account is what the server stores about a user: never the password.
type Account struct {
	DB, User string
	sha1x2   [sha1.Size]byte
	sha256x2 [sha256.Size]byte
	empty    bool
}

// NewAccount stores the password as a server does.
func NewAccount(db, user, password string) *Account {
	a := &Account{DB: db, User: user, empty: password == ""}
	s1 := sha1.Sum([]byte(password))
	a.sha1x2 = sha1.Sum(s1[:])
	s2 := sha256.Sum256([]byte(password))
	a.sha256x2 = sha256.Sum256(s2[:])
	return a
}

// split takes the answer apart: database, user, proof.
func split(data string) (db, user, proof string, err error) {
	i := strings.IndexByte(data, 0)
	if i < 0 {
		return "", "", "", fmt.Errorf("no separator after the database")
	}
	j := strings.IndexByte(data[i+1:], 0)
	if j < 0 {
		return "", "", "", fmt.Errorf("no separator after the user")
	}
	return data[:i], data[i+1 : i+1+j], data[i+j+2:], nil
}

func (a *Account) names(db, user string) error {
	if db != a.DB || user != a.User {
		return fmt.Errorf("names database %q and user %q, not %q and %q", Clip(db), Clip(user), Clip(a.DB), Clip(a.User))
	}
	return nil
}

// Clip shortens s for messages.
func Clip(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%s... (%d bytes)", s[:60], len(s))
	}
	return s
}

// MySQL41 verifies a MYSQL41 answer to a challenge.
func (a *Account) MySQL41(challenge []byte, data string) error {
	db, user, proof, err := split(data)
	if err != nil {
		return err
	}
	if err := a.names(db, user); err != nil {
		return err
	}
	if a.empty {
		if proof != "" {
			return fmt.Errorf("sends a proof for an empty password")
		}
		return nil
	}
	if len(proof) != 41 || proof[0] != '*' {
		return fmt.Errorf("proof %q is not * and 40 hexadecimal digits", Clip(proof))
	}
	p, err := hex.DecodeString(proof[1:])
	if err != nil {
		return fmt.Errorf("proof %q: %v", proof, err)
	}
	h := sha1.New()
	h.Write(challenge)
	h.Write(a.sha1x2[:])
	for i, x := range h.Sum(nil) {
		p[i] ^= x
	}
	if sha1.Sum(p) != a.sha1x2 {
		return fmt.Errorf("proof does not verify")
	}
	return nil
}

// SHA256 verifies a SHA256_MEMORY answer to a challenge.
func (a *Account) SHA256(challenge []byte, data string) error {
	db, user, proof, err := split(data)
	if err != nil {
		return err
	}
	if err := a.names(db, user); err != nil {
		return err
	}
	if a.empty && proof == "" {
		return nil
	}
	if len(proof) != 64 {
		return fmt.Errorf("proof %q is not 64 hexadecimal digits", Clip(proof))
	}
	p, err := hex.DecodeString(proof)
	if err != nil {
		return fmt.Errorf("proof %q: %v", proof, err)
	}
	h := sha256.New()
	h.Write(a.sha256x2[:])
	h.Write(challenge)
	for i, x := range h.Sum(nil) {
		p[i] ^= x
	}
	if sha256.Sum256(p) != a.sha256x2 {
		return fmt.Errorf("proof does not verify")
	}
	return nil
}

// Plain verifies a PLAIN answer.
func (a *Account) Plain(data string) error {
	db, user, pass, err := split(data)
	if err != nil {
		return err
	}
	if err := a.names(db, user); err != nil {
		return err
	}
	s := sha256.Sum256([]byte(pass))
	if sha256.Sum256(s[:]) != a.sha256x2 {
		return fmt.Errorf("wrong password (%d bytes)", len(pass))
	}
	return nil
}
