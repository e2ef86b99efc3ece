package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func listExts(e *Engine) {
	m := map[string][]string{}
	for fn := range ssautil.AllFunctions(e.prog) {
		if p := pkgOf(fn); !strings.HasPrefix(p, modPath) || strings.Contains(p, "/cmd") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				n := ""
				if cc.IsInvoke() {
					if e.closedIface(cc.Value.Type()) {
						continue
					}
					n = "iface " + ts(cc.Value.Type()) + "." + cc.Method.Name()
				} else if g := cc.StaticCallee(); g != nil {
					if strings.HasPrefix(pkgOf(g), modPath) {
						continue
					}
					n = g.String()
				} else {
					continue
				}
				m[n] = append(m[n], fn.Name())
			}
		}
	}
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	for _, k := range l {
		x := m[k]
		if len(x) > 4 {
			x = x[:4]
		}
		fmt.Println(k, x)
	}
}

func exts() {
	e, err := Load("/repo", "/verif/contracts")
	if err != nil {
		println(err.Error())
		return
	}
	theEngine = e
	listExts(e)
}
