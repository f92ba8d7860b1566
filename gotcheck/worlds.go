package main

import "go/types"

// nilTableFalse: no table is an unnamed nil table.
func nilTableFalse(p *Program) func(o *Obj, st *types.Named, field string) *Val {
	return func(o *Obj, st *types.Named, field string) *Val {
		if st == p.Table && field == "isNilTable" {
			return FalseVal
		}
		return nil
	}
}
