//go:build verif_pdf

package main

import "github.com/go-latex/latex/internal/verifh/pdf"

func init() {
	more["pdf"] = pdf.Registry
}
