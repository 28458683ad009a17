//go:build verifenv

package main

import "os"

func init() {
	recordEnv = func(f func(name string)) { os.VerifGetenv = f }
}
