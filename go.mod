module x
go 1.24
