package peg

import (
	"os"
	"testing"
)

func TestRepo(t *testing.T) {
	b, err := os.ReadFile("/repo/parse/trunnel.pigeon")
	if err != nil {
		t.Skip()
	}
	g, err := ReadPigeon(string(b))
	if err != nil {
		t.Fatal(err)
	}
	for _, r := range g.Rules {
		t.Log(r.Name, "<-", r.Expr)
	}
	t.Log(Compare(g, g))
	t.Log(g.Loops())
}
