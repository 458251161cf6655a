package main

import "go/token"

const (
	tokEQL = token.EQL
	tokLSS = token.LSS
)
