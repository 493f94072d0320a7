//go:build !sched

package main

func c14SchedFamilies(string) []Family { return nil }
