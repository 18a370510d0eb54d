package main

import (
	"strings"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"

	"verif/img"
)

// guessed says whether a NakedOS image whose name does not tell its order is
// recognised as NakedOS in ProDOS order, which depends on its contents (C04
// judges the guess itself).
func guessed(image []byte) bool {
	facs := []types.OperatorFactory{dos3.OperatorFactory{}, supermon.OperatorFactory{}, prodos.OperatorFactory{}}
	op, order, err := disk.OpenImage(append([]byte(nil), image...), "d.dsk", types.DiskOrderAuto, "auto", facs, 0)
	return err == nil && order == types.DiskOrderPO && op.Name() == "nakedos"
}

var (
	dosDisk  = img.DosDisk
	proDisk  = img.ProDisk
	sysImage = img.SysImage
)

// holds says that s contains a or b.
func holds(s string, subs ...string) bool {
	for _, x := range subs {
		if strings.Contains(s, x) {
			return true
		}
	}
	return false
}
