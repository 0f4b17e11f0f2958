// Command tools steps the generator's packages through behaviours of the
// specification.
package main

import (
	"fmt"
	"os"
)

func main() {
	cmds := map[string]func(args []string){
		"tree": tree,
		"gen":  gen,
		"text": text,
	}
	if len(os.Args) < 2 || cmds[os.Args[1]] == nil {
		fmt.Fprintln(os.Stderr, "what?")
		os.Exit(3)
	}
	cmds[os.Args[1]](os.Args[2:])
}
