//go:build race

package main

import "runtime"

const raceBuild = true

func races() int { return runtime.RaceErrors() }
