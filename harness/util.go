package main

import "os"

func writeFile(name string, b []byte) error { return os.WriteFile(name, b, 0644) }
