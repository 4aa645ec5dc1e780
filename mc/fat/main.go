package main

import core "github.com/dargueta/disko/zzverif/core"

func main() {
	assumptions := []string{"the Go toolchain and standard library are correct"}
	mock := append(assumptions, "the version-specific part of the driver, which the repository does not have yet, is played by the harness through the FATDriverCommon interface; it is put in place by the types of FATDriver's fields")
	core.Main(
		core.Property{ID: "C24", Parts: func(t bool) []*core.Part { return append(bootParts(t), bootSessions(reps(t))) }, Assumptions: assumptions},
		core.Property{ID: "C25", Parts: func(t bool) []*core.Part { return append(direntParts(t), direntSessions(reps(t))) }, Assumptions: append(assumptions, "timestamps are checked with time.Local set to UTC and to a fixed offset")},
		core.Property{ID: "C26", Parts: func(t bool) []*core.Part { return append(chainParts(t), chainSessions(reps(t))...) }, Assumptions: mock},
		core.Property{ID: "C27", Parts: func(t bool) []*core.Part { return append(fileParts(t), fileSessions(reps(t))) }, Assumptions: mock},
		core.Property{ID: "C40", Parts: func(t bool) []*core.Part { return append(metaParts(t), metaSessions(reps(t))) }, Assumptions: append(mock, "updated entries are stored by the harness")},
	)
}

func reps(thorough bool) int {
	if thorough {
		return 1100
	}
	return 270
}
