package lib

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"testing"

	"github.com/leonelquinteros/gotext"

	"verif/harness/core"
)

func TestMain(m *testing.M) {
	if os.Getenv("VERIF_HELPER") == "unconfigured" {
		helper()
		return
	}
	core.Main(m)
}

// query is one package-level lookup, run in a fresh process.
type query struct {
	Fn     string   `json:"fn"`
	Dom    string   `json:"dom"`
	ID     string   `json:"id"`
	Plural string   `json:"plural"`
	N      int      `json:"n"`
	Ctx    string   `json:"ctx"`
	Langs  []string `json:"langs"`
}

func (q query) run() (res string) {
	defer func() {
		if r := recover(); r != nil {
			res = fmt.Sprintf("PANIC %v", r)
		}
	}()
	switch q.Fn {
	case "Get":
		return gotext.Get(q.ID)
	case "GetN":
		return gotext.GetN(q.ID, q.Plural, q.N)
	case "GetD":
		return gotext.GetD(q.Dom, q.ID)
	case "GetND":
		return gotext.GetND(q.Dom, q.ID, q.Plural, q.N)
	case "GetC":
		return gotext.GetC(q.ID, q.Ctx)
	case "GetNC":
		return gotext.GetNC(q.ID, q.Plural, q.N, q.Ctx)
	case "GetDC":
		return gotext.GetDC(q.Dom, q.ID, q.Ctx)
	case "GetNDC":
		return gotext.GetNDC(q.Dom, q.ID, q.Plural, q.N, q.Ctx)
	case "IsTranslated":
		return fmt.Sprint(gotext.IsTranslated(q.ID, q.Langs...))
	case "IsTranslatedD":
		return fmt.Sprint(gotext.IsTranslatedD(q.Dom, q.ID, q.Langs...))
	case "IsTranslatedN":
		return fmt.Sprint(gotext.IsTranslatedN(q.ID, q.N, q.Langs...))
	case "IsTranslatedND":
		return fmt.Sprint(gotext.IsTranslatedND(q.Dom, q.ID, q.N, q.Langs...))
	case "IsTranslatedC":
		return fmt.Sprint(gotext.IsTranslatedC(q.ID, q.Ctx, q.Langs...))
	case "IsTranslatedNC":
		return fmt.Sprint(gotext.IsTranslatedNC(q.ID, q.N, q.Ctx, q.Langs...))
	case "IsTranslatedDC":
		return fmt.Sprint(gotext.IsTranslatedDC(q.Dom, q.ID, q.Ctx, q.Langs...))
	case "IsTranslatedNDC":
		return fmt.Sprint(gotext.IsTranslatedNDC(q.Dom, q.ID, q.N, q.Ctx, q.Langs...))
	case "GetLanguage":
		return gotext.GetLanguage()
	case "GetDomain":
		return gotext.GetDomain()
	case "SetLocales(nil)":
		gotext.SetLocales(nil)
	case "SetLocales(empty)":
		gotext.SetLocales([]*gotext.Locale{})
	}
	return ""
}

func helper() {
	var qs []query
	if err := json.NewDecoder(os.Stdin).Decode(&qs); err != nil {
		panic(err)
	}
	var out []string
	for _, q := range qs {
		out = append(out, q.run())
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

// fresh runs queries in a new process whose package state was never configured.
func fresh(qs []query) ([]string, error) {
	in, _ := json.Marshal(qs)
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "VERIF_HELPER=unconfigured")
	cmd.Stdin = bytes.NewReader(in)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	b, err := cmd.Output()
	if err != nil {
		if stderr.Len() == 0 {
			panic("harness: cannot run helper process: " + err.Error())
		}
		return nil, fmt.Errorf("unconfigured process died: %v\n%s", err, stderr.String())
	}
	var out []string
	if err := json.Unmarshal(b, &out); err != nil {
		return nil, fmt.Errorf("unconfigured process answers %q", b)
	}
	return out, nil
}
