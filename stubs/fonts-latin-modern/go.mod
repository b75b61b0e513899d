module github.com/go-fonts/latin-modern

go 1.19
