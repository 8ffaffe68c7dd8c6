package main

func runRules(pr *program, prop string, res *result) {}
