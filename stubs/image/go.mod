module golang.org/x/image
go 1.18
