//go:build verifmc && !verifhooks

package main

import "time"

func realNow() time.Time { return time.Now() }
