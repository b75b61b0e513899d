module git.sr.ht/~sbinet/gg
go 1.18
