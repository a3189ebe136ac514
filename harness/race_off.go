//go:build !race && go1.22

package main

const raceBuild = false
