package lib

import (
	"bytes"
	"fmt"

	"github.com/mescanne/goledger/cmd/accounts"
	"github.com/mescanne/goledger/cmd/app"
	"github.com/mescanne/goledger/cmd/currencies"
	"github.com/mescanne/goledger/cmd/export"
	"github.com/mescanne/goledger/cmd/importer"
	"github.com/mescanne/goledger/cmd/register"
	"github.com/mescanne/goledger/cmd/reports"
)

// Run runs a command on a ledger file like the program does, without colours.
func Run(a *app.App, args ...string) (out string, err error) {
	var buf bytes.Buffer
	a.Output = &buf
	if a.Divider == "" {
		a.Divider = ":"
	}
	if a.Lang == "" {
		a.Lang = "en"
	}
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	cmd := a.LoadCommand()
	accounts.Add(cmd, a)
	reports.Add(cmd, a, &reports.TransactionReport{Type: "Text", Combineby: "none"})
	register.Add(cmd, a, &register.RegisterReport{Type: "Text", Asc: true})
	importer.Add(cmd, a, map[string]*importer.ImportDef{})
	currencies.Add(cmd, a)
	export.Add(cmd, a, &export.ExportReport{Type: "Ledger"})
	cmd.SetArgs(args)
	err = cmd.Execute()
	return buf.String(), err
}
