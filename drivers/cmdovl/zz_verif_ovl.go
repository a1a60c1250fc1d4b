package main

import (
	"os"

	"github.com/microsoft/typescript-go/shim/vfs"
	"github.com/typescript-eslint/tsgolint/internal/zzverif/lib"
)

func init() {
	if len(os.Args) > 1 && os.Args[1] == "zz-verif-ovl" {
		lib.RunFS(func(base vfs.FS, over map[string]string) vfs.FS { return newOverlayFS(base, over) })
		os.Exit(0)
	}
}
