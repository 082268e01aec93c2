package main

import (
	"flag"
	"fmt"
	"os"
)

func flags(name string) *flag.FlagSet { return flag.NewFlagSet(name, flag.ExitOnError) }

var commands = map[string]func([]string){}

func main() {
	commands["dealer"] = runDealer
	commands["broker"] = runBroker
	commands["session"] = runSession
	commands["handshake"] = runHandshake
	commands["conc"] = runConc
	commands["challenges"] = runChallenges
	commands["ids"] = runIDs
	commands["codec"] = runCodec
	commands["raw"] = runRaw
	commands["e2e"] = runE2E
	commands["instrument"] = runInstrument
	if len(os.Args) < 2 || commands[os.Args[1]] == nil {
		fmt.Fprintln(os.Stderr, "usage: harness COMMAND ...")
		os.Exit(3)
	}
	commands[os.Args[1]](os.Args[2:])
}
