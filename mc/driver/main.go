package main

import (
	core "github.com/dargueta/disko/zzverif/core"
)

func pick(t bool, quick, thorough int) int {
	if t {
		return thorough
	}
	return quick
}

func main() {
	core.Main(
		core.Property{ID: "C28", Parts: pathParts},
		core.Property{ID: "C29", Parts: linkParts},
		core.Property{ID: "C30", Parts: nameParts},
		core.Property{ID: "C31", Parts: fileParts},
		core.Property{ID: "C32", Parts: readOnlyParts},
		core.Property{ID: "C33", Parts: removeParts},
		core.Property{ID: "C34", Parts: contractParts},
		core.Property{ID: "C35", Parts: listParts},
		core.Property{ID: "C41", Parts: missingParts},
	)
}
