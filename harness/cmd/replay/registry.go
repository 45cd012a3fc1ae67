package main

// The build replaces this file.
var registry = map[string]func(){}
