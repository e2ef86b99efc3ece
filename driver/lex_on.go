//go:build zzlex

package main

import "github.com/schemalex/schemalex"

const haveLex = true

func lexAll(s string) []schemalex.Token { return schemalex.ZZLex([]byte(s)) }
