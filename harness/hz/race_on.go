//go:build race

package hz

const raceEnabled = true
