//go:build verifkdf
// +build verifkdf

package main

import (
	"github.com/dchest/bcrypt_pbkdf"

	"github.com/kisom/psignify/signify/zverif/mc"
)

const haveFastKDF = true

// fastKDF replaces bcrypt_pbkdf by a fast function for this execution, in the code under test and in
// package ref alike. Keys made with the real one cannot be used in it.
func fastKDF(x *mc.X) {
	bcrypt_pbkdf.VerifFast = true
	x.Cleanup(func() { bcrypt_pbkdf.VerifFast = false })
}
