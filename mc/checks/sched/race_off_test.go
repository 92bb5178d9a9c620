//go:build !race

package sched

const raceOn = false
