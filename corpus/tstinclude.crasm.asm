;;; Author: Leon Bottou
;;; Public Domain.

	ilist on
	include tstmacros.crasm.asm
	ilist off
	include tstif.crasm.asm
