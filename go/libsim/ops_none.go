//go:build go1.22 && verifcore

package main

var moreOps = map[string]fn{}
