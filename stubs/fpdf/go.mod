module github.com/go-pdf/fpdf

go 1.18
