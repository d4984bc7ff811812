package model

import "strconv"

func itoa(i int64) string   { return strconv.FormatInt(i, 10) }
func itoaU(u uint64) string { return strconv.FormatUint(u, 10) }
func quote(s string) string { return strconv.Quote(s) }
