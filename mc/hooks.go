package main

import "sync"

func syncHooksOff() { sync.VerifSync = nil }
