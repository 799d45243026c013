// So that functions may have no body (see sched.go).
