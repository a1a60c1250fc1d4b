package main

import (
	"os"

	"github.com/microsoft/typescript-go/shim/vfs"
	"github.com/typescript-eslint/tsgolint/internal/utils"
	"github.com/typescript-eslint/tsgolint/internal/zzverif/lib"
)

func init() {
	if len(os.Args) > 1 && os.Args[1] == "ovl" {
		lib.RunFS(func(base vfs.FS, over map[string]string) vfs.FS { return utils.NewOverlayVFS(base, over) })
		os.Exit(0)
	}
}
