module github.com/go-fonts/liberation

go 1.19
