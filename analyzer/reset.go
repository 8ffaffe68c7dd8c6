package main

import (
	"math/big"
)

var (
	baseTable map[string]*Node
	baseNext  int
)

// resetTables drops all value numbers made since the program started, so that
// one specification is decided independently of the others.
func resetTables() {
	if baseTable == nil {
		baseTable = map[string]*Node{}
		for k, v := range table {
			baseTable[k] = v
		}
		baseNext = nextID
	}
	table = make(map[string]*Node, len(baseTable))
	for k, v := range baseTable {
		table[k] = v
	}
	nextID = baseNext
	varCount, rootCount = 0, 0
	bddTable, bddNext, iteMemo = map[[3]int]*bdd{}, 2, map[[3]int]*bdd{}
	axioms = bddT
	reads = map[*Node][][2]*Node{}
	mtMemo = map[[3]int]*Node{}
	stripMemo = map[[2]int]*Node{}
	boundMemo = map[*Node]bnd{}
	modpGroups = map[string]*modpGroup{}
	groupOrders = map[*Node]*Node{}
	fieldOrders = map[string]*big.Int{}
	atomHi = map[*Node]*Node{}
	atomLo, atomUp = map[*Node]*big.Int{}, map[*Node]*big.Int{}
	resetExt()
	resetBits()
}
