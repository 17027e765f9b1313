package vdet

func init() { Instrumented, Points = true, true }
