//go:build race

package main

func init() { race = true }
