//go:build !race

package main

const raceBuild = false

func races() int { return 0 }
