package main

import "syscall"

const (
	sigHUP  = syscall.SIGHUP
	sigTERM = syscall.SIGTERM
)

// procAttr has a program end when the harness does.
func procAttr() *syscall.SysProcAttr {
	return &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
}
