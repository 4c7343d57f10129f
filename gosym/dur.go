package main

import "time"

func durString(n int64) string                 { return time.Duration(n).String() }
func parseDur(s string) (time.Duration, error) { return time.ParseDuration(s) }
