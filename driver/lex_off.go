//go:build !zzlex

package main

import "github.com/schemalex/schemalex"

const haveLex = false

func lexAll(s string) []schemalex.Token { return nil }
