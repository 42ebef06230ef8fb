// Command hcli is the command-line program with a native module giving the
// recorded commands, and (see go.mod) a readline that marks its prompts.
package main

import (
	"helena/cli"
	hd "helena/helena_dialect"
	"hv/rec"
)

func main() {
	cli.StaticLoad("verif", func() *hd.Module { return rec.HostModule() })
	cli.Cli()
}
